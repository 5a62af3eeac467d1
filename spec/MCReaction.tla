----------------------------- MODULE MCReaction -----------------------------
(* The algebra of transformations, explored over all operation sequences.   *)
EXTENDS Reaction, TLC
CONSTANT DEPTH
VARIABLES r, orig, sign, n
vars == <<r, orig, sign, n>>
P == \* Y2O3 + Mn2O3 -> 2 YMnO3 ; 4 Mn + 3 O2 -> 2 Mn2O3 ; BaCO3 + TiO2 -> BaTiO3 + CO2 (elements: a b O)
  { [comps |-> <<<<2,0,3>>, <<0,2,3>>, <<1,1,3>>>>, co |-> <<<<-1,1>>, <<-1,1>>, <<2,1>>>>, en |-> <<<<-9,1>>, <<-7,2>>, <<-7,1>>>>, kind |-> "computed", mu |-> <<>>],
    [comps |-> <<<<0,1,0>>, <<0,0,2>>, <<0,2,3>>>>, co |-> <<<<-4,1>>, <<-3,1>>, <<2,1>>>>, en |-> <<<<0,1>>, <<-1,1>>, <<-9,1>>>>, kind |-> "open", mu |-> <<<<3, <<-1,2>>>>>>],
    [comps |-> <<<<1,0,3>>, <<0,1,2>>, <<1,1,3>>, <<0,0,2>>>>, co |-> <<<<-1,1>>, <<-1,1>>, <<1,1>>, <<1,1>>>>, en |-> <<<<-8,1>>, <<-6,1>>, <<-11,1>>, <<-1,1>>>>, kind |-> "computed", mu |-> <<>>] }
F == {<<1, 1>>, <<2, 1>>, <<1, 3>>}
Init == r \in P /\ orig = r /\ sign = 1 /\ n = 0
DoReverse == r' = Reverse(r) /\ sign' = -sign
DoNorm == \E i \in Phases(r), f \in F : r' = NormalizeTo(r, r.comps[i], f) /\ sign' = sign
             /\ RAbs(CoeffOf(r', r.comps[i])) = f
DoNormEl == \E e \in 1..3, f \in F : ElAmount(r, e)[1] # 0 /\ r' = NormalizeToElement(r, e, f) /\ sign' = sign
             /\ ElAmount(r', e) = f
Next == n < DEPTH /\ n' = n + 1 /\ orig' = orig /\ (DoReverse \/ DoNorm \/ DoNormEl)
Spec == Init /\ [][Next]_vars
View == <<r, orig, sign>>
Ratio == RDiv(r.co[1], orig.co[1])
StillConserved == Conserved(r)
OneScale == \A i \in Phases(r) : r.co[i] = RMul(orig.co[i], Ratio)
SignTracked == RSign(Ratio) = sign
EnergyScales == Energy(r) = RMul(Energy(orig), Ratio)
PerAtomInvariant == EnergyPerAtom(r) = RMul(EnergyPerAtom(orig), RInt(sign))
SumOf(S) == LET RECURSIVE f(_) f(T) == IF T = {} THEN R0 ELSE LET x == CHOOSE x \in T : TRUE IN RAdd(x[2], f(T \ {x})) IN f(S)
FractionsSum == \A s \in {-1, 1} : SumOf(MolarFractions(r, s)) = R1 /\ SumOf(AtomicFractions(r, s)) = R1
ReverseInvolution == Reverse(Reverse(r)) = r
=============================================================================
