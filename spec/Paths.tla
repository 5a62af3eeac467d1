------------------------------- MODULE Paths -------------------------------
(* Weighted directed multigraphs and their cheapest loopless paths.         *)
(*   g : [n |-> number of nodes, e |-> sequence of <<source, target, cost>>]*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

ArcCosts(g, u, v) == {g.e[i][3] : i \in {i \in DOMAIN g.e : g.e[i][1] = u /\ g.e[i][2] = v}}
\* adjacency: cheapest parallel edge, -1 when there is none
Adj(g) == TLCEval([u \in 1..g.n |-> TLCEval([v \in 1..g.n |-> LET S == ArcCosts(g, u, v) IN IF S = {} THEN -1 ELSE Min(S)])])
PathCost(W, p) == FoldLeft(LAMBDA a, i : a + W[p[i]][p[i + 1]], 0, [i \in 1..(Len(p) - 1) |-> i])
IsPath(W, p, s, t) == /\ Len(p) >= 1 /\ p[1] = s /\ p[Len(p)] = t
                      /\ \A i \in 1..(Len(p) - 1) : W[p[i]][p[i + 1]] >= 0
Loopless(p) == \A i, j \in DOMAIN p : i # j => p[i] # p[j]

\* all loopless paths from s to t
RECURSIVE Extend(_, _, _, _)
Extend(W, P, t, done) ==     \* P: unfinished loopless paths
  IF P = {} THEN done
  ELSE LET N == TLCEval(UNION {{Append(p, v) : v \in {v \in DOMAIN W : W[p[Len(p)]][v] >= 0 /\ \A i \in DOMAIN p : p[i] # v}} : p \in P})
       IN Extend(W, TLCEval({p \in N : p[Len(p)] # t}), t, TLCEval(done \cup {p \in N : p[Len(p)] = t}))
AllPaths(W, s, t) == IF s = t THEN {<<s>>} ELSE Extend(W, {<<s>>}, t, {})

\* what a k-shortest-paths answer ps (sequence of node sequences) must satisfy
KspFails(W, s, t, k, ps, all) ==
  LET got == {ps[i] : i \in DOMAIN ps}
      cost == TLCEval([p \in all |-> PathCost(W, p)])
      C(cl, ok) == IF ok THEN {} ELSE {cl}
  IN IF ~(got \subseteq all) THEN {"loopless_paths"}
     ELSE C("distinct", Cardinality(got) = Len(ps))
          \cup C("in_order", \A i \in 1..(Len(ps) - 1) : cost[ps[i]] <= cost[ps[i + 1]])
          \cup C("as_many_as_exist", Len(ps) = (IF Cardinality(all) < k THEN Cardinality(all) ELSE k))
          \cup C("cheapest", \A p \in all \ got : \A r \in got : cost[r] <= cost[p])

-----------------------------------------------------------------------------
\* one cheapest loopless path (any of them) avoiding nodes and edges, or none
Cheapest(W, s, t, offN, offE) ==
  LET V == [u \in DOMAIN W |-> [v \in DOMAIN W |-> IF u \in offN \/ v \in offN \/ <<u, v>> \in offE THEN -1 ELSE W[u][v]]]
      A == AllPaths(V, s, t)
  IN {p \in A : \A r \in A : PathCost(V, p) <= PathCost(V, r)}
=============================================================================
