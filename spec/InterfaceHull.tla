--------------------------- MODULE InterfaceHull ---------------------------
(* The reaction hull of an interface between two precursors. A reaction is  *)
(* a point <<x, y>>: x in 0..D is the mixing ratio (fraction x/D of atoms   *)
(* that come from the second precursor), y the energy per atom in integer   *)
(* units. The precursors themselves are <<0, 0>> and <<D, 0>>.              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
AbsI(x) == IF x < 0 THEN -x ELSE x
Round(a, b) == IF 2 * (AbsI(a) % b) >= b THEN (IF a < 0 THEN -1 ELSE 1) * (AbsI(a) \div b + 1) ELSE (IF a < 0 THEN -1 ELSE 1) * (AbsI(a) \div b)
All(P, D) == P \cup {<<0, 0>>, <<D, 0>>}
LowAt(P, x) == Min({p[2] : p \in {q \in P : q[1] = x}})
\* > 0: r lies above the line through p and q (p[1] < q[1])
Cross(p, q, r) == (q[1] - p[1]) * (r[2] - p[2]) - (r[1] - p[1]) * (q[2] - p[2])
\* vertices of the lower envelope; m = 0: exactly, m > 0: those that stay vertices whatever
\* happens below the resolution m
Lowest(P, D) == {p \in All(P, D) : p[2] = LowAt(All(P, D), p[1])}
IsVertex(Q, D, p, m) == p[1] \in {0, D} \/ \A a \in Q, b \in Q : (a[1] < p[1] /\ p[1] < b[1]) => Cross(a, b, p) < -m * (b[1] - a[1])
Vertices(P, D, m) == LET Q == TLCEval(Lowest(P, D)) IN {p \in Q : IsVertex(Q, D, p, m)}
Clearly(P, D, p, m) == \* p is above the envelope by more than m
  LET Q == TLCEval(Lowest(P, D)) IN (\E q \in Q : q[1] = p[1] /\ q[2] < p[2] - m)
     \/ \E a \in Q, b \in Q : a[1] < p[1] /\ p[1] < b[1] /\ Cross(a, b, p) > m * (b[1] - a[1])
\* envelope at x, given its vertices
EnvV(V, x) ==
  LET a == CHOOSE p \in V : p[1] <= x /\ \A q \in V : q[1] <= x => q[1] <= p[1]
      b == CHOOSE p \in V : p[1] >= x /\ \A q \in V : q[1] >= x => q[1] >= p[1]
  IN IF a[1] = b[1] THEN a[2] ELSE a[2] + Round((x - a[1]) * (b[2] - a[2]), b[1] - a[1])
Env(P, D, x) == EnvV(Vertices(P, D, 0), x)
-----------------------------------------------------------------------------
(* Competition. A sequence q of points orders what can form between two     *)
(* mixing ratios; its first and last point react. Secondary reactions split *)
(* the interval at an intermediate point, and again, until nothing is left  *)
(* in between; every complete order of splits is one sequence.              *)
Altitude(a, m, b) == (m[2] - a[2]) - Round((m[1] - a[1]) * (b[2] - a[2]), b[1] - a[1])
ByX(S) == SetToSortSeq(S, LAMBDA a, b : a[1] < b[1])
\* points between x1 and x2 (x1 < x2) of the hull with vertices V; a decomposition of a precursor
\* is a point of its own next to the precursor
Between(V, D, x1, x2) ==
  LET mid == ByX({p \in V : p[1] > x1 /\ p[1] < x2 /\ p[2] <= 0}) a == EnvV(V, x1) b == EnvV(V, x2)
  IN (IF x1 = 0 /\ a # 0 THEN <<<<0, 0>>>> ELSE <<>>) \o <<<<x1, a>>>> \o mid
     \o (IF x2 = x1 THEN <<>> ELSE <<<<x2, b>>>>) \o (IF x2 = D /\ b # 0 THEN <<<<D, 0>>>> ELSE <<>>)
\* Catalan numbers: number of complete split sequences of n intermediate points
Cat == LET t == TLCEval(FoldLeft(LAMBDA s, n : TLCEval(Append(s, FoldSet(LAMBDA i, r : r + s[i + 1] * s[n - i], 0, 0..(n - 1)))), <<1>>, [i \in 1..16 |-> i]))
       IN [n \in 0..16 |-> t[n + 1]]
CatMod(N, p) == \* sequence: entry n + 1 is the n-th number modulo p
  FoldLeft(LAMBDA s, n : TLCEval(Append(s, FoldSet(LAMBDA i, t : (t + s[i + 1] * s[n - i]) % p, 0, 0..(n - 1)))), <<1>>, [i \in 1..N |-> i])
\* share of sequences whose first split leaves l points on the left and r on the right, in 1/S
ShareTab(n, S) == \* l -> share, for l + r + 1 = n
  LET step(s, l) == LET r == n - l IN TLCEval(Append(s, Round(s[l] * (2 * l - 1) * (r + 1), (l + 1) * (2 * r - 1))))
  IN FoldLeft(step, <<Round(S * (n + 1), 2 * (2 * n - 1))>>, [l \in 1..(n - 1) |-> l])
MaxAbs(q) == Max({AbsI(q[i][2]) : i \in DOMAIN q} \cup {1})
\* mean over all complete split sequences of the sum of their altitudes
MeanEnergy(q) ==
  IF Len(q) <= 2 THEN 0 ELSE
  LET N == Len(q) S == IF MaxAbs(q) <= 3000 THEN 50000 ELSE 500
      \* T[s][i]: mean for the interval from point i to point i + s
      val(T, i, s, m) == Altitude(q[i], q[m], q[i + s]) + T[m - i][i] + T[i + s - m][m]
      exact(T, i, s) == Round(FoldSet(LAMBDA m, t : t + Cat[m - i - 1] * Cat[i + s - m - 1] * val(T, i, s, m), 0, (i + 1)..(i + s - 1)), Cat[s - 1])
      approx(T, i, s, W) == Round(FoldSet(LAMBDA m, t : t + Round(W[m - i] * val(T, i, s, m), 100), 0, (i + 1)..(i + s - 1)), S \div 100)
      row(T, s) == IF s <= 6 THEN [i \in 1..(N - s) |-> exact(T, i, s)]
                   ELSE LET W == TLCEval(ShareTab(s - 1, S)) IN [i \in 1..(N - s) |-> approx(T, i, s, W)]
      T == FoldLeft(LAMBDA t, s : TLCEval(Append(t, row(t, s))), <<[i \in 1..(N - 1) |-> 0]>>, [k \in 1..(N - 2) |-> k + 1])
  IN T[N - 1][1]
CountOf(q) == IF Len(q) <= 2 THEN 1 ELSE Cat[Len(q) - 2]
BestEnergy(q) == IF Len(q) <= 2 THEN 0 ELSE
  Min({0} \cup {Altitude(q[i], q[m], q[j]) : <<i, m, j>> \in {t \in (DOMAIN q) \X (DOMAIN q) \X (DOMAIN q) : t[1] < t[2] /\ t[2] < t[3]}})
\* twice the area between the points and the line from first to last, in units of 1/D
Area2(q) == IF Len(q) <= 2 THEN 0 ELSE LET n == Len(q) dep(i) == -Altitude(q[1], q[i], q[n])
            IN FoldSet(LAMBDA i, t : t + (q[i + 1][1] - q[i][1]) * (dep(i) + dep(i + 1)), 0, 1..(n - 1))
Primary(P, D, x, y) == y - Min({p[2] : p \in {r \in All(P, D) : r[1] # x}})
Secondary(V, D, x) == -(MeanEnergy(Between(V, D, 0, x)) + MeanEnergy(Between(V, D, x, D)))
=============================================================================
