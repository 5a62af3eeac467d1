------------------------------ MODULE Pathways ------------------------------
(* Balanced reaction pathways. Phases are 1..m; a reaction is an integer    *)
(* vector of amounts over the phases (negative = consumed). A set of        *)
(* candidate reactions solves a net reaction when its members, taken with   *)
(* uniquely determined strictly positive multiplicities, add up to it.      *)
EXTENDS Lin, FiniteSetsExt, SequencesExt

\* multiplicities (rationals) of the given reactions that add up to net; <<>> when they
\* are not unique, do not exist or are not all strictly positive
Mults(cols, net) ==
  LET k == Len(cols)
      M == FromCols(Append(cols, net), Len(net))
      E == Reduced(M, k + 1)
  IN IF Len(E.piv) # k \/ E.piv[k] = k + 1 THEN <<>>
     ELSE LET v == NullVecOf(E, k + 1)
          IN IF \A i \in 1..k : v[i] * v[k + 1] < 0 THEN TLCEval([i \in 1..k |-> RNorm(-v[i], v[k + 1])]) ELSE <<>>
Cols(C, S) == LET q == SetToSeqI(S) IN TLCEval([i \in 1..Len(q) |-> C[q[i]]])
SolvesSet(C, S, net) == Mults(Cols(C, S), net) # <<>>
\* all solutions with at most k reactions from the candidates C (a sequence of vectors)
Solutions(C, net, k) == TLCEval({S \in UNION {kSubset(i, DOMAIN C) : i \in 1..(IF k < Len(C) THEN k ELSE Len(C))} : SolvesSet(C, S, net)})

Weighted(ms, vs, m) == [j \in 1..m |-> RSum([i \in 1..Len(vs) |-> RMul(ms[i], vs[i][j])])]
AvgCost(ms, cs) == RDiv(RSum([i \in 1..Len(ms) |-> RMul(ms[i], cs[i])]), RSum(ms))

\* reactions as [r, p]: sets of consumed and produced formulas. What is produced nowhere
\* in the pathway is supplied; the others have to be made before they are used.
Made(P) == UNION {P[i].p : i \in DOMAIN P}
RECURSIVE Reach(_, _, _)
Reach(P, av, made) ==
  LET nx == TLCEval(av \cup UNION {P[i].p : i \in {i \in DOMAIN P : P[i].r \cap made \subseteq av}})
  IN IF nx = av THEN av ELSE Reach(P, nx, made)
Realizable(P, pre) == LET made == TLCEval(Made(P)) av == TLCEval(Reach(P, pre, made)) IN \A i \in DOMAIN P : P[i].r \cap made \subseteq av
\* the definition: there is an order in which every reaction finds its reactants
Permuts(n) == {q \in [1..n -> 1..n] : Cardinality({q[i] : i \in 1..n}) = n}
Ordered(P, pre) ==
  \E q \in Permuts(Len(P)) : \A i \in DOMAIN P :
     P[q[i]].r \cap Made(P) \subseteq pre \cup UNION {P[q[j]].p : j \in {j \in DOMAIN P : j < i}}
Sides(v) == [r |-> {j \in DOMAIN v : v[j] < 0}, p |-> {j \in DOMAIN v : v[j] > 0}]
=============================================================================
