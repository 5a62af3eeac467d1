-------------------------------- MODULE Rat --------------------------------
(* Exact rationals as <<num, den>> with den > 0 and gcd(num, den) = 1.      *)
(* TLC integers are 32-bit: the drivers keep magnitudes small and check it. *)
(* <<0, 0>> encodes "the code produced a number that is not one of the      *)
(* small rationals the model can produce"; it is different from every real  *)
(* rational, so comparisons with it are FALSE rather than undefined.        *)
EXTENDS Integers, Sequences, FiniteSets

RatAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN RatAbs(a) ELSE Gcd(b, a % RatAbs(b))
Lcm(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (RatAbs(a) \div Gcd(a, b)) * RatAbs(b)

Bad == <<0, 0>>
IsRat(q) == q[2] > 0
RNorm(n, d) == IF d = 0 THEN Bad
               ELSE LET g == Gcd(n, d) s == IF d < 0 THEN -1 ELSE 1
                    IN <<(s * n) \div g, (s * d) \div g>>
R0 == <<0, 1>>
R1 == <<1, 1>>
RInt(n) == <<n, 1>>
RAdd(a, b) == IF ~IsRat(a) \/ ~IsRat(b) THEN Bad
              ELSE LET g == Gcd(a[2], b[2])
                   IN RNorm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF ~IsRat(a) \/ ~IsRat(b) THEN Bad
              ELSE LET g1 == Gcd(a[1], b[2]) g2 == Gcd(b[1], a[2])
                       h1 == IF g1 = 0 THEN 1 ELSE g1  h2 == IF g2 = 0 THEN 1 ELSE g2
                   IN RNorm((a[1] \div h1) * (b[1] \div h2), (a[2] \div h2) * (b[2] \div h1))
RInv(a) == IF ~IsRat(a) \/ a[1] = 0 THEN Bad ELSE RNorm(a[2], a[1])
RDiv(a, b) == RMul(a, RInv(b))
RAbs(a) == <<RatAbs(a[1]), a[2]>>
RSign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RCmp(a, b) == RSign(RSub(a, b))
RLt(a, b) == IsRat(a) /\ IsRat(b) /\ RCmp(a, b) < 0
RLe(a, b) == IsRat(a) /\ IsRat(b) /\ RCmp(a, b) <= 0
REq(a, b) == IsRat(a) /\ IsRat(b) /\ a[1] * 1 = b[1] /\ a[2] = b[2]
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a

RECURSIVE RSumTo(_, _)
RSumTo(s, k) == IF k = 0 THEN R0 ELSE RAdd(RSumTo(s, k - 1), s[k])
RSum(s) == RSumTo(s, Len(s))

RECURSIVE ISumTo(_, _)
ISumTo(s, k) == IF k = 0 THEN 0 ELSE ISumTo(s, k - 1) + s[k]
ISum(s) == ISumTo(s, Len(s))

\* minimum of a non-empty sequence of rationals
RECURSIVE RMinTo(_, _)
RMinTo(s, k) == IF k = 1 THEN s[1] ELSE RMin(RMinTo(s, k - 1), s[k])
RMinSeq(s) == RMinTo(s, Len(s))

RECURSIVE SetToSeqI(_)
\* ascending sequence of a finite set of integers
SetToSeqI(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN <<m>> \o SetToSeqI(S \ {m})
=============================================================================
