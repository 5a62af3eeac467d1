------------------------------- MODULE Tasks -------------------------------
(* Splitting work into groups, and collecting the results of tasks.         *)
EXTENDS TaskPool, FiniteSetsExt
RECURSIVE Chop(_, _)
Chop(s, n) == IF Len(s) = 0 THEN <<>> ELSE IF Len(s) <= n THEN <<s>> ELSE <<SubSeq(s, 1, n)>> \o Chop(SubSeq(s, n + 1, Len(s)), n)
\* groups of n, the last one filled up
Groups(s, n, fill) == LET g == Chop(s, n) IN [k \in DOMAIN g |-> [i \in 1..n |-> IF i <= Len(g[k]) THEN g[k][i] ELSE fill]]
Flat(g) == FoldLeft(LAMBDA a, b : a \o b, <<>>, g)
\* all subsets of 1..n with 1 to m members, as increasing sequences
Increasing(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
Smaller(n, m) == {q \in UNION {[1..k -> 1..n] : k \in 1..(IF m < n THEN m ELSE n)} : Increasing(q)}
Choose(n, k) == IF k > n THEN 0 ELSE FoldLeft(LAMBDA a, i : (a * (n - i + 1)) \div i, 1, [i \in 1..k |-> i])
CountUpTo(n, m) == FoldLeft(LAMBDA a, k : a + Choose(n, k), 0, [k \in 1..m |-> k])
=============================================================================
