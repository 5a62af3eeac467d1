---------------------------- MODULE MCEntrySet ----------------------------
(* An entry set with remembered answers: every interleaving of mutations    *)
(* and queries, for every universe of a small family. The remembered answers*)
(* are dropped on mutation; an answer given is always that of the contents. *)
EXTENDS EntrySet
CONSTANTS NPH, ELO, EHI
Lo == -2
VARIABLES u, S, cache, hv
vars == <<u, S, cache, hv>>
Comps == <<<<1, 0>>, <<0, 1>>, <<1, 1>>, <<1, 1>>, <<1, 2>>, <<2, 1>>>>
T == 0
Init == /\ \E f \in [3..NPH -> ELO..EHI] :
              u = [x \in 1..NPH |-> [c |-> Comps[x], m |-> 1, e |-> IF x <= 2 THEN 0 ELSE f[x], s |-> 0, f |-> TRUE]]
        /\ S = {1, 2, 3} /\ cache = {} /\ hv = HullInfo(u, S, T)
Mutate == \E x \in 3..NPH : /\ S' = IF x \in S THEN S \ {x} ELSE S \cup {x}
                            /\ cache' = {} /\ UNCHANGED u /\ hv' = HullInfo(u, S', T)
Hulls(X) == {<<x, AboveHull(u, X, T, x)>> : x \in X}
Query == /\ cache' = IF cache = {} THEN {[k |-> "hull", v |-> Hulls(S)]} ELSE cache
         /\ UNCHANGED <<u, S, hv>>
Next == Mutate \/ Query
Spec == Init /\ [][Next]_vars
View == <<u, S, cache>>
CacheFresh == \A cc \in cache : cc.v = {<<x, hv[x].a>> : x \in S}
NonNegative == \A x \in S : RLe(R0, hv[x].a)
SomeStable == \A x \in {1, 2} : hv[x].a = R0
\* a larger set never raises the energy above the hull of what it already had
Monotone == [][\A x \in S \cap S' : IF S \subseteq S' THEN RLe(hv[x].a, hv'[x].a) ELSE RLe(hv'[x].a, hv[x].a)]_vars
\* filtering keeps the hull, and is idempotent
Kept(tol, poly) == {F \in SUBSET S : FilterOkH(u, S, hv, tol, poly, F)}
Tols == {<<0, 1>>, <<1, 2>>}
FilterExists == \A tol \in Tols : \A p \in BOOLEAN : Kept(tol, p) # {}
FilterKeepsHull == \A tol \in Tols : \A p \in BOOLEAN : \A F \in Kept(tol, p) :
                     F # S => LET h == HullInfo(u, F, T) IN (\A x \in F : h[x].a = hv[x].a) /\ FilterOkH(u, F, h, tol, p, F)
FilterMonotone == \A F \in Kept(<<1, 2>>, TRUE) : {x \in S : Sure(hv, R0, x)} \subseteq F
\* the least energy of a composition has the least energy above the hull
GroundStates == \A x, y \in S : u[x].c = u[y].c => (hv[x].min => RLe(hv[x].a, hv[y].a))
\* the hull within a chemical system is that of the whole set
Local == \A x \in S : \A els \in {{1}, {2}} : ElsOf(u[x].c) \subseteq els => AboveHull(u, SubsetIn(u, S, els), T, x) = hv[x].a
\* lowering a phase by its energy above the hull puts it on the hull
Stabilized == \A x \in S : LET a == Above(CPhase(u), EPhase(u, T), S, x) IN
                a[2] = 1 => LET v == [u EXCEPT ![x].e = @ * NAt(u[x].c) - a[1]]
                                E1 == [EPhase(u, T) EXCEPT ![x] = @ - a[1]]
                            IN Above(CPhase(u), E1, S, x) = R0
=============================================================================
