------------------------------ MODULE MCStore ------------------------------
(* The heap behind it: objects and documents hold references to cells, and  *)
(* only the content of a cell can be seen. Saving and loading have to make  *)
(* new cells; the ghost variables say what everybody should see.            *)
EXTENDS Store, FiniteSetsExt
CONSTANTS Slots, Docs, Ops, MaxLen, SaveCopies, LoadCopies
VARIABLES cells, obj, doc, gobj, gdoc, steps
vars == <<cells, obj, doc, gobj, gdoc, steps>>
None == 0
Init == /\ cells = <<>> /\ obj = [s \in Slots |-> None] /\ doc = [d \in Docs |-> None]
        /\ gobj = [s \in Slots |-> <<>>] /\ gdoc = [d \in Docs |-> <<>>] /\ steps = 0
New(s) == /\ obj[s] = None /\ cells' = Append(cells, Born(s)) /\ obj' = [obj EXCEPT ![s] = Len(cells) + 1]
          /\ gobj' = [gobj EXCEPT ![s] = Born(s)] /\ UNCHANGED <<doc, gdoc>>
Save(s, d) == /\ obj[s] # None
              /\ IF SaveCopies THEN cells' = Append(cells, cells[obj[s]]) /\ doc' = [doc EXCEPT ![d] = Len(cells) + 1]
                 ELSE cells' = cells /\ doc' = [doc EXCEPT ![d] = obj[s]]
              /\ gdoc' = [gdoc EXCEPT ![d] = gobj[s]] /\ UNCHANGED <<obj, gobj>>
Load(d, s) == /\ doc[d] # None
              /\ IF LoadCopies THEN cells' = Append(cells, cells[doc[d]]) /\ obj' = [obj EXCEPT ![s] = Len(cells) + 1]
                 ELSE cells' = cells /\ obj' = [obj EXCEPT ![s] = doc[d]]
              /\ gobj' = [gobj EXCEPT ![s] = gdoc[d]] /\ UNCHANGED <<doc, gdoc>>
Change(s, m) == /\ obj[s] # None /\ cells' = [cells EXCEPT ![obj[s]] = Done(@, m)]
                /\ gobj' = [gobj EXCEPT ![s] = Done(@, m)] /\ UNCHANGED <<obj, doc, gdoc>>
Next == /\ steps < MaxLen /\ steps' = steps + 1
        /\ \/ \E s \in Slots : New(s)
           \/ \E s \in Slots, d \in Docs : Save(s, d) \/ Load(d, s)
           \/ \E s \in Slots, m \in Ops : Change(s, m)
Spec == Init /\ [][Next]_vars
Faithful == \A s \in Slots : obj[s] # None => cells[obj[s]] = gobj[s]
DocumentsKeep == \A d \in Docs : doc[d] # None => cells[doc[d]] = gdoc[d]
SavedAndLoaded == \A s \in Slots, d \in Docs : obj[s] # None /\ doc[d] # None /\ gobj[s] = gdoc[d] => cells[obj[s]] = cells[doc[d]]
=============================================================================
