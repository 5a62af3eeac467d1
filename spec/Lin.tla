-------------------------------- MODULE Lin --------------------------------
(* Exact linear algebra over the integers: fraction-free Gauss-Jordan       *)
(* elimination of a matrix given as a sequence of rows (sequences).         *)
EXTENDS Rat, TLC

RECURSIVE GcdTo(_, _)
GcdTo(s, k) == IF k = 0 THEN 0 ELSE Gcd(GcdTo(s, k - 1), s[k])
RowNorm(r0) == LET r == TLCEval(r0) g == GcdTo(r, Len(r)) IN IF g = 0 THEN r ELSE TLCEval([i \in DOMAIN r |-> r[i] \div g])

\* state of the elimination: rows, number k of pivots found, pivot columns
RECURSIVE Elim(_, _, _, _)
Elim(M, ncol, j, piv) ==
  LET k == Len(piv) IN
  IF j > ncol \/ k = Len(M) THEN [rows |-> M, piv |-> piv]
  ELSE LET cand == {i \in (k + 1)..Len(M) : M[i][j] # 0} IN
       IF cand = {} THEN Elim(M, ncol, j + 1, piv)
       ELSE LET p == CHOOSE i \in cand : \A q \in cand : i <= q
                S == TLCEval([i \in 1..Len(M) |-> IF i = k + 1 THEN M[p] ELSE IF i = p THEN M[k + 1] ELSE M[i]])
                pr == S[k + 1]
                N == TLCEval([i \in 1..Len(M) |->
                        IF i = k + 1 \/ S[i][j] = 0 THEN S[i]
                        ELSE RowNorm([c \in 1..ncol |-> pr[j] * S[i][c] - S[i][j] * pr[c]])])
            IN Elim(N, ncol, j + 1, Append(piv, j))

Reduced(M0, ncol) == LET M == TLCEval(M0) IN TLCEval(Elim(TLCEval([i \in 1..Len(M) |-> RowNorm(M[i])]), ncol, 1, <<>>))
Nullity(M, ncol) == ncol - Len(Reduced(M, ncol).piv)

RECURSIVE LcmTo(_, _, _)
LcmTo(E, k, f) == IF k = 0 THEN 1 ELSE Lcm(LcmTo(E, k - 1, f), E.rows[k][E.piv[k]])

\* integer generator of a one-dimensional null space (defined when nullity = 1)
NullVecOf(E, ncol) ==
  LET f == CHOOSE c \in 1..ncol : \A k \in 1..Len(E.piv) : E.piv[k] # c
      L == LcmTo(E, Len(E.piv), f)
      raw == TLCEval([c \in 1..ncol |->
                IF c = f THEN L
                ELSE LET k == CHOOSE k \in 1..Len(E.piv) : E.piv[k] = c
                     IN -((L \div E.rows[k][c]) * E.rows[k][f])])
  IN RowNorm(raw)
NullVec(M, ncol) == NullVecOf(Reduced(M, ncol), ncol)

\* matrix whose columns are the given vectors
FromCols(cols, nrow) == [i \in 1..nrow |-> [c \in 1..Len(cols) |-> cols[c][i]]]
Dot(a, b) == ISum([i \in 1..Len(a) |-> a[i] * b[i]])
=============================================================================
