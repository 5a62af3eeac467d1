-------------------------- MODULE MCInterfaceHull --------------------------
(* Reactions are added to an interface one by one; the envelope only moves  *)
(* down, is convex and below every reaction. The mean over split sequences  *)
(* agrees with the explicit enumeration of all sequences and with the       *)
(* closed form over triples, and their number is the Catalan number.        *)
EXTENDS InterfaceHull
CONSTANTS D, Ys, MAXR
YsSmall == {-4, -3, -1, 1}
YsDeep == {-6, -5, -4, -3, -1, 0, 2}
VARIABLES P, prev
vars == <<P, prev>>
Init == P = {} /\ prev = {}
Next == \E x \in 0..D, y \in Ys : Cardinality(P) < MAXR /\ <<x, y>> \notin P /\ P' = P \cup {<<x, y>>} /\ prev' = P
Spec == Init /\ [][Next]_vars
L == 60 \* energies are multiples of L: all interpolations are integers
V(Q) == Vertices({<<p[1], L * p[2]>> : p \in Q}, D, 0)
E(Q, x) == EnvV(V(Q), x)
BelowAll == \A p \in All(P, D) : E(P, p[1]) <= L * p[2]
AtVertices == \A p \in V(P) : E(P, p[1]) = p[2]
Convex == \A x \in 1..(D - 1) : 2 * E(P, x) <= E(P, x - 1) + E(P, x + 1)
OnlyDown == \A x \in 0..D : E(P, x) <= E(prev, x)
ClearlyAgrees == \A p \in P : Clearly({<<q[1], L * q[2]>> : q \in P}, D, <<p[1], L * p[2]>>, 0) = (E(P, p[1]) < L * p[2])
-----------------------------------------------------------------------------
\* explicit enumeration: a sequence is a set of splits <<i, m, j>>
RECURSIVE Trees(_, _)
Trees(i, j) == IF j = i + 1 THEN {{}} ELSE UNION {{{<<i, m, j>>} \cup a \cup b : a \in Trees(i, m), b \in Trees(m, j)} : m \in (i + 1)..(j - 1)}
SumOver(q, t) == FoldSet(LAMBDA s, r : r + Altitude(q[s[1]], q[s[2]], q[s[3]]), 0, t)
Total(q) == FoldSet(LAMBDA t, r : r + SumOver(q, t), 0, Trees(1, Len(q)))
Triples(n) == {t \in (1..n) \X (1..n) \X (1..n) : t[1] < t[2] /\ t[2] < t[3]}
\* closed form: how often a triple occurs among the sequences
ClosedForm(q) == LET n == Len(q) IN FoldSet(LAMBDA t, r : r + Cat[t[2] - t[1] - 1] * Cat[t[3] - t[2] - 1] * Cat[n - 2 - (t[3] - t[1] - 1)]
                                                          * Altitude(q[t[1]], q[t[2]], q[t[3]]), 0, Triples(n))
Seqs == LET W == V(P) IN {Between(W, D, a, b) : <<a, b>> \in {r \in (0..D) \X (0..D) : r[1] < r[2]}}
Enumeration == \A q \in Seqs : Len(q) > 2 => LET n == Cardinality(Trees(1, Len(q))) IN
    n = Cat[Len(q) - 2] /\ Total(q) = ClosedForm(q) /\ AbsI(MeanEnergy(q) * n - Total(q)) <= n * Len(q)
NonPositive == \A q \in Seqs : MeanEnergy(q) <= 0 /\ BestEnergy(q) <= 0 /\ Area2(q) >= 0
Shares == \A n \in 1..14 : LET t == ShareTab(n, 50000) IN \A l \in 1..n : AbsI(t[l] * Cat[n] - 50000 * Cat[l - 1] * Cat[n - l]) <= 3 * Cat[n]
ASSUME \A n \in 0..16 : CatMod(16, 46337)[n + 1] = Cat[n] % 46337
ASSUME \A n \in 1..7 : LET t == ShareTab(n, 50000) IN \A l \in 1..n : AbsI(t[l] * Cat[n] - 50000 * Cat[l - 1] * Cat[n - l]) <= 3 * Cat[n]
=============================================================================
