----------------------------- MODULE MCNetwork -----------------------------
(* All histories of setting precursors and targets on small networks.       *)
EXTENDS Network
CONSTANTS RS, PH, MaxSteps
VARIABLES rs, g, pre, tgt, n
vars == <<rs, g, pre, tgt, n>>
R(r, p, w) == [r |-> r, p |-> p, w |-> w]
Small == { <<R({1}, {2}, 1), R({2}, {3}, 0), R({1, 3}, {4}, 2), R({3}, {2}, 1)>>,
           <<R({1, 2}, {3}, 1), R({1, 2}, {3}, 3), R({3}, {1, 2}, 1), R({3}, {4}, 1), R({1}, {4, 2}, 2)>>,
           <<R({1}, {2, 3}, 1), R({2, 3}, {4}, 1), R({2}, {4}, 0), R({4}, {1}, 1), R({2, 4}, {3, 1}, 2)>> }
\* every network of three reactions with up to two phases on a side over three phases, one cost
Pairs == {x \in (SUBSET {1, 2, 3}) \X (SUBSET {1, 2, 3}) : x[1] # {} /\ x[2] # {} /\ x[1] \cap x[2] = {}}
Large == Small \cup {<<R(x[1], x[2], 1), R(y[1], y[2], 0), R(z[1], z[2], 2)>> : x, y, z \in Pairs}
Init == rs \in RS /\ g = Built(rs) /\ pre = {} /\ tgt = 0 /\ n = 0
SetP(S) == g' = PutPrecursors(rs, g, S) /\ pre' = S /\ UNCHANGED <<rs, tgt>>
SetT(t) == g' = PutTarget(rs, g, t) /\ tgt' = t /\ UNCHANGED <<rs, pre>>
Rebuild == g' = Built(rs) /\ pre' = {} /\ tgt' = 0 /\ UNCHANGED rs
Next == n < MaxSteps /\ n' = n + 1 /\ (Rebuild \/ (\E S \in (SUBSET PH) \ {{}} : Cardinality(S) <= 2 /\ SetP(S)) \/ (\E t \in PH : SetT(t)))
Spec == Init /\ [][Next]_vars
View == <<rs, g, pre, tgt>>
\* the graph is a function of the last precursors and target only
HistoryFree == g = Ideal(rs, pre, tgt)
NoDangling == \A e \in g.edges : e.s \in g.nodes /\ e.t \in g.nodes
Seqs == LET ns == SetToSeq(g.nodes) ix == Ix(ns) W == Adj(Numbered(rs, g, ns))
        IN [ns |-> ns, all |-> IF pre = {} \/ tgt = 0 THEN {} ELSE AllPaths(W, ix[<<"S", pre>>], ix[<<"T", {tgt}>>])]
\* every path of the graph is an executable sequence of reactions and conversely
PathsExecutable == LET s == Seqs IN \A p \in s.all :
   LET steps == [j \in 1..((Len(p) - 2) \div 2) |-> CHOOSE i \in DOMAIN rs : <<"R", rs[i].r>> = s.ns[p[2 * j]] /\ <<"P", rs[i].p>> = s.ns[p[2 * j + 1]]]
   IN Executable(rs, pre, tgt, steps)
Reach == LET Step(S) == S \cup UNION {rs[i].p : i \in {i \in DOMAIN rs : rs[i].r \subseteq S}} IN Step(Step(Step(Step(Step(pre))))) 
\* a phase reached by a path can be made from the precursors
PathsReach == Seqs.all # {} => tgt \in Reach
=============================================================================
