--------------------------- MODULE MCReactionSet ---------------------------
(* All histories of a small collection of reaction sets: building, adding,  *)
(* combining, filtering (with a nondeterministic choice of representatives),*)
(* querying and changing conditions.                                        *)
EXTENDS ReactionSet
CONSTANTS MAXREG, MAXRX
VARIABLES regs, hist
vars == <<regs, hist>>
\* elements a, b; phases: 1 = a, 2 = b, 3 and 4 = two polymorphs of ab
U == [ents |-> <<[c |-> <<1, 0>>, b |-> 1, t |-> 1], [c |-> <<0, 2>>, b |-> 2, t |-> 1],
                 [c |-> <<1, 1>>, b |-> 3, t |-> 1], [c |-> <<1, 1>>, b |-> 4, t |-> 1]>>,
      en |-> <<<<<<0, 1>>, <<0, 1>>>>, <<<<0, 1>>, <<-1, 1>>>>, <<<<-3, 1>>, <<-2, 1>>>>, <<<<-2, 1>>, <<-3, 1>>>>>>]
Q(a, b) == <<a, b>>
Rx == {[e |-> <<1, 2, 3>>, co |-> <<Q(-2,1), Q(-1,1), Q(2,1)>>, d |-> 1],
       [e |-> <<2, 1, 3>>, co |-> <<Q(-1,2), Q(-1,1), Q(1,1)>>, d |-> 2],
       [e |-> <<1, 2, 3>>, co |-> <<Q(2,1), Q(1,1), Q(-2,1)>>, d |-> 3],
       [e |-> <<1, 2, 4>>, co |-> <<Q(-2,1), Q(-1,1), Q(2,1)>>, d |-> 4],
       [e |-> <<4, 3>>, co |-> <<Q(-1,1), Q(1,1)>>, d |-> 5]}
Init == \E r \in Rx : regs = <<NewSet(<<r>>, 1..4, <<>>)>> /\ hist = <<"new">>
Push(s, what) == Len(s.rx) <= MAXRX /\ regs' = Append(regs, s) /\ hist' = Append(hist, what)
\* results of filtering: choose for each class a representative, or the ensured ones
Filtered(s, ens) ==
  {out \in {LET P(i) == i \in K IN
            [k \in 1..Cardinality(K) |-> s.rx[SetToSeqI(K)[k]]] : K \in SUBSET (DOMAIN s.rx)} : FilterOk(s.rx, out, ens)}
Next ==
  /\ Len(regs) < MAXREG
  /\ \E i \in DOMAIN regs : LET s == regs[i] IN
     \/ \E r \in Rx : Push(AddRxns(s, <<r>>), "add")
     \/ \E j \in DOMAIN regs : Combinable(U, s, regs[j]) /\ Push(AddRxns(s, regs[j].rx), "addset")
     \/ \E ens \in {<<>>} \cup {<<s.rx[k]>> : k \in DOMAIN s.rx} :
           \E out \in Filtered(s, ens) : Push([s EXCEPT !.rx = out], "filter")
     \/ \E fs \in SUBSET {U.ents[k].c : k \in 1..4} : Push(ByReactants(U, s, fs), "reactants")
     \/ \E f \in {U.ents[k].c : k \in 1..4} : Push(ByProduct(U, s, f), "product")
     \/ \E m \in {<<>>, <<2, <<-1, 1>>>>} : Push(SetChempot(s, m), "chempot")
     \/ \E t \in 1..2 : Push(SetTemp(s, t), "temp")
Spec == Init /\ [][Next]_vars
View == regs

Immutable == [][\A i \in DOMAIN regs : regs'[i] = regs[i]]_vars
\* a result of filtering exists, and filtering it again changes nothing
FilterExists == \A i \in DOMAIN regs : Filtered(regs[i], <<>>) # {}
FilterIdempotent == \A i \in DOMAIN regs : \A out \in Filtered(regs[i], <<>>) :
                       \A again \in Filtered([regs[i] EXCEPT !.rx = out], <<>>) : SameBag(again, out)
FilterSize == \A i \in DOMAIN regs : \A o1, o2 \in Filtered(regs[i], <<>>) : Len(o1) = Len(o2)
DupIsEquivalence == \A x, y, z \in Rx : Dup(x, x) /\ (Dup(x, y) = Dup(y, x)) /\ (Dup(x, y) /\ Dup(y, z) => Dup(x, z))
DupNotReverse == \A x, y \in Rx : Dup(x, y) => RSign(EnergyIn(U, regs[1], x)) = RSign(EnergyIn(U, regs[1], y))
\* queries: a reaction is found by some product; all are found by all formulas
AllF == {U.ents[k].c : k \in 1..4}
QueryAll == \A i \in DOMAIN regs : SameBag(ByReactants(U, regs[i], AllF).rx, regs[i].rx)
QueryNone == \A i \in DOMAIN regs : ByReactants(U, regs[i], {}).rx = <<>>
QueryProduct == \A i \in DOMAIN regs : \A k \in DOMAIN regs[i].rx :
                  \E f \in AllF : RxKey(regs[i].rx[k]) \in KeySet(ByProduct(U, regs[i], f).rx)
\* only the last condition counts
LastCondition == \A i \in DOMAIN regs : \A t1, t2 \in 1..2 :
                   /\ SetTemp(SetTemp(regs[i], t1), t2) = SetTemp(regs[i], t2)
                   /\ SetChempot(SetTemp(regs[i], t1), <<>>) = SetTemp(SetChempot(regs[i], <<>>), t1)
EnergiesDefined == \A i \in DOMAIN regs : \A k \in DOMAIN regs[i].rx : IsRat(EnergyPerAtomIn(U, regs[i], regs[i].rx[k]))
=============================================================================
