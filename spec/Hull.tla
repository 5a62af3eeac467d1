------------------------------- MODULE Hull -------------------------------
(* Convex hulls of (composition, energy) points, exactly: the hull energy   *)
(* of a composition is the least energy of a decomposition into phases, and *)
(* it is attained by a combination of linearly independent phases.          *)
(*  C : phase -> composition (amounts per formula unit)                     *)
(*  E : phase -> energy per formula unit (integer)                          *)
EXTENDS Lin, FiniteSetsExt

ElsOf(v) == {k \in DOMAIN v : v[k] > 0}
NAt(v) == ISum(v)
KSub(k, S) == IF k > Cardinality(S) THEN {} ELSE kSubset(k, S)
Ground(C, E, S) == {i \in S : \A j \in S : C[j] = C[i] => E[i] <= E[j]}
\* one representative of each composition
Reps(C, E, S) == LET G == Ground(C, E, S) IN {i \in G : \A j \in G : C[j] = C[i] => i <= j}
\* energy of v made from exactly the phases K, or Bad
DecompE(C, E, K, v) ==
  LET ks == SetToSeqI(K) n == Len(ks)
      cols == [k \in 1..(n + 1) |-> IF k <= n THEN C[ks[k]] ELSE v]
      M == [r \in 1..Len(v) |-> [k \in 1..(n + 1) |-> cols[k][r]]]
      X == TLCEval(Reduced(M, n + 1))
  IN IF n + 1 - Len(X.piv) # 1 THEN Bad
     ELSE LET w == TLCEval(NullVecOf(X, n + 1)) d == w[n + 1]
          IN IF d = 0 \/ \E k \in 1..n : w[k] * d >= 0 THEN Bad
             ELSE RNorm(-ISum([k \in 1..n |-> w[k] * E[ks[k]]]), d)
HullOver(C, E, S, v) ==
  LET G == {i \in S : ElsOf(C[i]) \subseteq ElsOf(v)}
      Ks == UNION {KSub(j, G) : j \in 1..Cardinality(ElsOf(v))}
      vals == TLCEval({DecompE(C, E, K, v) : K \in Ks} \ {Bad})
  IN IF vals = {} THEN Bad ELSE FoldSet(LAMBDA a, b : RMin(a, b), CHOOSE x \in vals : TRUE, vals)
\* hull energy per formula unit of composition v
HullE(C, E, S, v) == HullOver(C, E, Reps(C, E, S), v)
\* energy above the hull, per formula unit
Above(C, E, S, i) == RSub(RInt(E[i]), HullE(C, E, S, C[i]))
\* i is needed: without it the hull at its composition is higher (or not defined)
Vertex(C, E, S, i) == LET h == HullE(C, E, S \ {i}, C[i]) IN h = Bad \/ RLt(RInt(E[i]), h)
HasRefs(C, S) == \A i \in S : \A k \in ElsOf(C[i]) : \E j \in S : ElsOf(C[j]) = {k}
=============================================================================
