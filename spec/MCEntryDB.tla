----------------------------- MODULE MCEntryDB -----------------------------
(* The documents of a chemical system are fetched sub-system by sub-system, *)
(* in groups, each group by one query: every document within the system     *)
(* comes exactly once, whatever the groups and their order.                 *)
EXTENDS EntryDB
CONSTANTS NE, ND, MaxGroup
VARIABLES db, sys, left, got, size
vars == <<db, sys, left, got, size>>
Docs == [id : {0}, c : [1..NE -> 0..1], gga : BOOLEAN, ggau : {FALSE}]
Real(d) == ElemsOf(d.c) # {}
Init == /\ \E m \in [1..ND -> {d \in Docs : Real(d)}] : db = [i \in 1..ND |-> [m[i] EXCEPT !.id = i]]
        /\ sys \in SUBSET (1..NE) \ {{}} /\ left = SUBSET sys \ {{}} /\ got = <<>> /\ size \in 1..MaxGroup
Query == /\ left # {}
         /\ \E G \in SUBSET left : /\ Cardinality(G) = IF Cardinality(left) < size THEN Cardinality(left) ELSE size
              /\ left' = left \ G
              /\ LET D == {i \in DOMAIN db : ElemsOf(db[i].c) \in G} IN got' = got \o SetToSortSeq(D, <)
         /\ UNCHANGED <<db, sys, size>>
Next == Query
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == \A i, j \in DOMAIN got : got[i] = got[j] => i = j
Sound == \A i \in DOMAIN got : got[i] \in InSystem(db, sys)
Complete == left = {} => {got[i] : i \in DOMAIN got} = InSystem(db, sys)
\* the query for very large systems asks that no element is outside: the same documents
Same == InSystem(db, sys) = {i \in DOMAIN db : ~\E e \in ElemsOf(db[i].c) : e \notin sys}
SystemsAreSearches == InSystem(db, sys) = UNION {Search(db, <<[k |-> "system", els |-> S, any |-> {}]>>) : S \in SUBSET sys \ {{}}}
=============================================================================
