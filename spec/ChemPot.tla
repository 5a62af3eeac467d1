------------------------------ MODULE ChemPot ------------------------------
(* Chemical potential diagrams, exactly. A phase with composition n and     *)
(* energy e (per formula unit) bounds the chemical potentials by n.mu <= e; *)
(* the diagram is the polytope of all potentials within limits that every   *)
(* phase allows, and the domain of a phase is the face on which its own     *)
(* bound is as tight as it can be: the corners at which n.mu is largest.    *)
(* The phase is stable when that largest value is its energy; what the      *)
(* energy of an unstable phase lies above it is its energy above the hull.  *)
(* Corners are <<p1, .., pd, den>>: the potentials p1/den, .., pd/den.      *)
EXTENDS Rat, TLC, FiniteSetsExt

Dot(n, p) == ISum([k \in DOMAIN n |-> n[k] * p[k]])
\* row n.mu <= b as <<n1, .., nd, b>>
Det2(a, b, i, j) == a[i] * b[j] - a[j] * b[i]
Det3(a, b, c, i, j, k) == a[i] * Det2(b, c, j, k) - a[j] * Det2(b, c, i, k) + a[k] * Det2(b, c, i, j)
Normed(v) == LET g == FoldSet(LAMBDA k, acc : Gcd(v[k], acc), 0, DOMAIN v) s == IF v[Len(v)] < 0 THEN -1 ELSE 1
             IN [k \in DOMAIN v |-> (s * v[k]) \div g]
\* where the rows K meet in one point; <<0>> when they do not
Meet(rows, K) ==
  LET s == SetToSeqI(K) d == Len(s) IN
  IF d = 1 THEN LET a == rows[s[1]] IN IF a[1] = 0 THEN <<0>> ELSE Normed(<<a[2], a[1]>>)
  ELSE IF d = 2 THEN LET a == rows[s[1]] b == rows[s[2]] det == Det2(a, b, 1, 2) IN
    IF det = 0 THEN <<0>> ELSE Normed(<<-Det2(a, b, 2, 3), Det2(a, b, 1, 3), det>>)
  ELSE LET a == rows[s[1]] b == rows[s[2]] c == rows[s[3]] det == Det3(a, b, c, 1, 2, 3) IN
    IF det = 0 THEN <<0>> ELSE Normed(<<Det3(a, b, c, 4, 2, 3), Det3(a, b, c, 1, 4, 3), Det3(a, b, c, 1, 2, 4), det>>)
Within(rows, v) == \A r \in DOMAIN rows : LET d == Len(v) - 1 IN
  ISum([k \in 1..d |-> rows[r][k] * v[k]]) <= rows[r][d + 1] * v[d + 1]
Corners(rows) ==
  LET d == Len(rows[1]) - 1
      all == TLCEval({Meet(rows, K) : K \in kSubset(d, DOMAIN rows)} \ {<<0>>})
  IN TLCEval({v \in all : Within(rows, v)})
Borders(lims) == LET d == Len(lims) IN
  [r \in 1..(2 * d) |-> LET k == (r + 1) \div 2 IN
     IF r % 2 = 1 THEN [j \in 1..(d + 1) |-> IF j = k THEN -1 ELSE IF j = d + 1 THEN -lims[k][1] ELSE 0]
                  ELSE [j \in 1..(d + 1) |-> IF j = k THEN 1 ELSE IF j = d + 1 THEN lims[k][2] ELSE 0]]
\* C : phase -> composition, E : phase -> energy
Rows(C, E, S, lims) == LET s == SetToSeqI(S) IN [i \in DOMAIN s |-> C[s[i]] \o <<E[s[i]]>>] \o Borders(lims)
Diagram(C, E, S, lims) == Corners(Rows(C, E, S, lims))
Val(n, v) == RNorm(Dot(n, v), v[Len(v)])
\* the largest n.mu of the diagram: the energy of the hull at n, and where it is attained
Best(P, n) == FoldSet(LAMBDA v, acc : RMax(acc, Val(n, v)), Val(n, CHOOSE v \in P : TRUE), P)
Face(P, n) == LET b == TLCEval(Best(P, n)) IN {v \in P : Val(n, v) = b}
Tight(P, n, e) == {v \in P : Val(n, v) = RInt(e)}
\* a domain that is a facet has at least as many corners as there are elements
Facet(F, d) == Cardinality(F) >= d
Dist2(a, b) == ISum([k \in DOMAIN a |-> (a[k] - b[k]) * (a[k] - b[k])])
=============================================================================
