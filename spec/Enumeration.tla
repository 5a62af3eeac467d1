---------------------------- MODULE Enumeration ----------------------------
(* What the reaction enumerators must return for a set of entries.          *)
(*  u : [c  |-> entry number -> composition (amounts per formula unit),     *)
(*       en |-> entry number -> energy per formula unit (integer)]          *)
(*  f : request [open, P, T (sets of entries), hasP, hasT, xp, xt (flags),  *)
(*       n, sys (set of elements), oel (open elements)]                     *)
(* A reaction is a pair <<A, B>> of sets of entries together with the one   *)
(* coefficient vector (A negative, B positive) that conserves every element.*)
EXTENDS Lin, FiniteSetsExt

NEl(u) == Len(u.c[1])
ElsOf(v) == {k \in DOMAIN v : v[k] > 0}
Els(u, S) == UNION {ElsOf(u.c[i]) : i \in S}
ColsAB(u, a, b) == [k \in 1..(Len(a) + Len(b)) |-> IF k <= Len(a) THEN u.c[a[k]] ELSE u.c[b[k - Len(a)]]]
\* rows = elements taken into account
Mat(u, a, b, rows) == LET R == SetToSeqI(rows) cs == ColsAB(u, a, b)
                      IN [i \in 1..Len(R) |-> [k \in 1..Len(cs) |-> cs[k][R[i]]]]
\* <<>> or the unique strictly signed coefficients (reactants a, products b in ascending order)
Balance(u, A, B, rows) ==
  LET a == SetToSeqI(A) b == SetToSeqI(B) m == Len(a) + Len(b)
      E == TLCEval(Reduced(Mat(u, a, b, rows), m))
  IN IF m - Len(E.piv) # 1 THEN <<>>
     ELSE LET v == TLCEval(NullVecOf(E, m))
              s == IF v[1] < 0 THEN 1 ELSE -1
              w == TLCEval([k \in 1..m |-> s * v[k]])
          IN IF \A k \in 1..m : IF k <= Len(a) THEN w[k] < 0 ELSE w[k] > 0 THEN w ELSE <<>>
AllRows(u) == 1..NEl(u)
Conserves(u, a, b, co) ==     \* coefficients are rationals
  \A r \in AllRows(u) : RSum([k \in DOMAIN co |-> RMul(co[k], RInt(ColsAB(u, a, b)[k][r]))]) = R0
KSub(k, S) == IF k > Cardinality(S) THEN {} ELSE kSubset(k, S)
Forms(u, S) == {u.c[i] : i \in S}

-----------------------------------------------------------------------------
\* requests
ReactantsOk(f, A) == f.hasP => IF f.xp THEN A \subseteq f.P ELSE A \cap f.P # {}
ProductsOk(f, B) == f.hasT => IF f.xt THEN B \subseteq f.T ELSE B \cap f.T # {}
\* a system the enumerator covers: 2 to 9 elements, containing the elements asked for
SystemOk(u, f, S) == LET k == Els(u, S) \cup f.oel IN Cardinality(k) \in 2..9 /\ f.sys \subseteq k
Combos(f, S) == UNION {KSub(k, S) : k \in 1..f.n}

\* A, B: sides including open phases
SidesOk(u, f, A, B) ==
  LET a == A \ f.open b == B \ f.open IN
  /\ a # {} /\ b # {} /\ A \cap B = {} /\ Cardinality(a) <= f.n /\ Cardinality(b) <= f.n
  /\ Els(u, a) \cup f.oel = Els(u, b) \cup f.oel
  /\ SystemOk(u, f, a)
  /\ ReactantsOk(f, a) /\ ProductsOk(f, b)
  /\ Forms(u, A) # Forms(u, B)
\* how open phases take part: none for closed enumerators; on exactly one side for open ones
OpenSides(f) == IF f.open = {} THEN {<<{}, {}>>}
                ELSE LET N == (SUBSET f.open) \ {{}} IN {<<o, {}>> : o \in N} \cup {<<{}, o>> : o \in N}
Combinatorial(u, f) ==
  LET ents == DOMAIN u.c
      C == TLCEval(Combos(f, ents \ f.open))
      key == TLCEval([S \in C |-> Els(u, S) \cup f.oel])
      L == {A \in C : ReactantsOk(f, A) /\ SystemOk(u, f, A)}
      R == {B \in C : ProductsOk(f, B)}
      prs == {ab \in L \X R : ab[1] \cap ab[2] = {} /\ key[ab[1]] = key[ab[2]]}
      full == {<<ab[1] \cup o[1], ab[2] \cup o[2]>> : ab \in prs, o \in OpenSides(f)}
  IN {ab \in full : Forms(u, ab[1]) # Forms(u, ab[2]) /\ Balance(u, ab[1], ab[2], AllRows(u)) # <<>>}

-----------------------------------------------------------------------------
(* Energy-minimizing enumerators. A candidate from the reactant formulas    *)
(* {a} or {a, b} is a reaction uniquely balanced over the elements that are *)
(* not open; its point is <<p, q, E>>: amounts of a and b consumed and the  *)
(* (grand) energy released, defined up to a positive factor. The thermo-    *)
(* dynamically predicted reactions are the points of the lower envelope.    *)
Ground(u, S) == {i \in S : \A j \in S : (u.c[j] = u.c[i] /\ j # i) => u.en[i] < u.en[j]}
Rows(u, f) == AllRows(u) \ f.oel
\* grand energy per formula unit
Phi(u, f, i) == u.en[i] - ISum([r \in 1..NEl(u) |-> IF r \in f.oel THEN u.c[i][r] * f.mu ELSE 0])
Point(u, f, a, b, A, B) ==
  LET v == Balance(u, A, B, Rows(u, f)) sa == SetToSeqI(A) sb == SetToSeqI(B)
      co(i) == IF i \in A THEN v[CHOOSE k \in DOMAIN sa : sa[k] = i]
               ELSE IF i \in B THEN v[Len(sa) + CHOOSE k \in DOMAIN sb : sb[k] = i] ELSE 0
  IN <<-co(a), IF a = b THEN 0 ELSE -co(b), ISum([k \in 1..Len(v) |-> v[k] * Phi(u, f, IF k <= Len(sa) THEN sa[k] ELSE sb[k - Len(sa)])])>>
\* candidates consuming a and b both (or a only when b = a)
CandAB(u, f, G, a, b) ==
  LET A == {a, b}
      S == {i \in G : u.c[i] \notin Forms(u, A) /\ (Els(u, {i}) \ f.oel) # {} /\ (Els(u, {i}) \ f.oel) \subseteq Els(u, A)}
      k == Cardinality(Els(u, A) \ f.oel) + 1 - Cardinality(A)
      Bs == UNION {KSub(j, S) : j \in 1..k}
  IN {[A |-> A, B |-> B, pt |-> Point(u, f, a, b, A, B)] : B \in {B \in Bs : Balance(u, A, B, Rows(u, f)) # <<>>}}
Self(a) == [A |-> {a}, B |-> {a}, pt |-> <<1, 0, 0>>]
OnlyB(x) == [x EXCEPT !.pt = <<0, x.pt[1], x.pt[3]>>]
\* all candidates for the pair, as points in the (a, b) plane
Cands(u, f, G, a, b) ==
  IF a = b THEN CandAB(u, f, G, a, a) \cup {Self(a)}
  ELSE CandAB(u, f, G, a, b) \cup CandAB(u, f, G, a, a) \cup {OnlyB(x) : x \in CandAB(u, f, G, b, b)}
       \cup {Self(a), OnlyB(Self(b))}
\* x lies on or below every chord of the other points (homogeneous coordinates)
Det(x, y) == x[1] * y[2] - x[2] * y[1]
BelowChord(x, y, z, strict) ==
  LET d == Det(y, z) IN
  IF d = 0 THEN TRUE
  ELSE LET s == IF d > 0 THEN 1 ELSE -1
           al == s * Det(x, z) be == s * Det(y, x)      \* x ~ (al y + be z) / |d|
       IN (al < 0 \/ be < 0) \/
          (LET lhs == x[3] * s * d rhs == al * y[3] + be * z[3]
           IN IF strict /\ al > 0 /\ be > 0 THEN lhs < rhs ELSE lhs <= rhs)
SameRay(x, y) == Det(x, y) = 0
BelowRay(x, y) == SameRay(x, y) => x[3] * (y[1] + y[2]) <= y[3] * (x[1] + x[2])
OnEnvelope(x, C) == (\A y \in C : BelowRay(x, y.pt)) /\ \A y, z \in C : BelowChord(x, y.pt, z.pt, FALSE)
IsKink(x, C) == OnEnvelope(x, C) /\ \A y, z \in C : BelowChord(x, y.pt, z.pt, TRUE)
\* the only candidate on its ray with that energy
Untied(x, C) == \A y \in C : (SameRay(x.pt, y.pt) /\ x.pt[3] * (y.pt[1] + y.pt[2]) = y.pt[3] * (x.pt[1] + x.pt[2])) => (y.A = x.A /\ y.B = x.B)
\* adds the open phases to the side on which they are needed
Complete(u, f, A, B) ==
  IF f.open = {} THEN <<A, B>>
  ELSE LET o == CHOOSE i \in f.open : i \in Ground(u, f.open)
           v == Balance(u, A, B, Rows(u, f)) a == SetToSeqI(A) b == SetToSeqI(B)
           r == CHOOSE r \in f.oel : TRUE
           bal == ISum([k \in 1..Len(v) |-> v[k] * u.c[IF k <= Len(a) THEN a[k] ELSE b[k - Len(a)]][r]])
       IN IF bal = 0 THEN <<A, B>> ELSE IF bal > 0 THEN <<A \cup {o}, B>> ELSE <<A, B \cup {o}>>
\* pairs of reactants (ground states) to be considered
PairsOf(u, f) == LET G == Ground(u, DOMAIN u.c) \ f.open
                 IN {ab \in G \X G : ab[1] <= ab[2] /\ ReactantsOk(f, {ab[1], ab[2]}) /\ SystemOk(u, f, {ab[1], ab[2]})}
=============================================================================
