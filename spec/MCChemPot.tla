----------------------------- MODULE MCChemPot -----------------------------
(* A diagram that answers questions. The domain of a phase that has none in *)
(* the diagram is found by lowering it onto the hull in a working copy of   *)
(* the phases. Shown for every small set of phases and every history: the   *)
(* answers are those of the phases the diagram was made of, a failed        *)
(* question included, and the geometry is consistent.                       *)
EXTENDS ChemPot
CONSTANTS Comps, MaxE, MaxN, Depth, Restore
VARIABLES E0, work, cache, asked
vars == <<E0, work, cache, asked>>
CompsB == <<<<1, 0>>, <<0, 1>>, <<1, 1>>, <<2, 1>>, <<1, 3>>>>
CompsT == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, 1, 0>>, <<1, 1, 2>>, <<0, 1, 2>>>>
Lo == -Depth
N == Len(Comps)
D == Len(Comps[1])
Lims == [k \in 1..D |-> <<Lo, 0>>]
IsRef(i) == Cardinality({k \in 1..D : Comps[i][k] > 0}) = 1
Init == /\ E0 \in [1..N -> (-MaxE)..1] /\ \A i \in 1..N : IsRef(i) => E0[i] = 0
        /\ work = E0 /\ cache = [i \in 1..N |-> {}] /\ asked = <<>>
P0 == Diagram(Comps, E0, 1..N, Lims)
Stable(i) == Best(P0, Comps[i]) = RInt(E0[i]) /\ Facet(Tight(P0, Comps[i], E0[i]), D)
Answer(i) == LET P == Diagram(Comps, work, 1..N, Lims) IN Face(P, Comps[i])
Ask(i) == /\ Len(asked) < MaxN /\ asked' = Append(asked, i) /\ E0' = E0
          /\ IF cache[i] # {} THEN UNCHANGED <<work, cache>>
             ELSE /\ cache' = [cache EXCEPT ![i] = Answer(i)]
                  /\ work' = IF Restore THEN work ELSE [work EXCEPT ![i] = MaxE]
\* a question about a phase that is not there
Fail == /\ Len(asked) < MaxN /\ asked' = Append(asked, 0) /\ UNCHANGED <<E0, work, cache>>
Next == Fail \/ \E i \in 1..N : Ask(i)
Spec == Init /\ [][Next]_vars
HistoryFree == \A i \in 1..N : cache[i] # {} => cache[i] = Face(P0, Comps[i])
\* geometry (judged before any question)
Fresh == asked = <<>>
NonEmpty == Fresh => P0 # {}
EveryCornerBelongsToAPhase == Fresh => \A v \in P0 : \E i \in 1..N : Val(Comps[i], v) = RInt(E0[i]) \/ \E k \in 1..D : v[k] = Lo * v[D + 1]
RefsStable == Fresh => \A i \in 1..N : IsRef(i) => Stable(i)
\* on the hull exactly when its face is where its own bound is tight
StableIsTight == Fresh => \A i \in 1..N : Stable(i) => Face(P0, Comps[i]) = Tight(P0, Comps[i], E0[i])
\* leaving a phase out that has no domain changes nothing
Redundant == Fresh => \A i \in 1..N : ~IsRef(i) /\ Best(P0, Comps[i]) # RInt(E0[i]) => Diagram(Comps, E0, (1..N) \ {i}, Lims) = P0
\* lowering a phase onto the hull does not move the domains of the others
Lowered == Fresh => \A i \in 1..N : ~IsRef(i) /\ ~Stable(i) /\ IsRat(Best(P0, Comps[i])) /\ Best(P0, Comps[i])[2] = 1 =>
             Diagram(Comps, [E0 EXCEPT ![i] = Best(P0, Comps[i])[1]], 1..N, Lims) = P0
=============================================================================
