------------------------------ MODULE Reaction ------------------------------
(* Chemical reactions as exact mathematical objects.                        *)
(*                                                                          *)
(* A reaction record has                                                    *)
(*   comps : sequence of compositions (sequences of element amounts >= 0)   *)
(*   co    : sequence of rational coefficients (negative: reactant)         *)
(*   en    : sequence of rational energies per formula unit (or <<>>)       *)
(*   kind  : "basic" | "computed" | "open"                                  *)
(*   mu    : sequence of <<element index, rational chemical potential>>     *)
EXTENDS Lin

Phases(r) == 1..Len(r.comps)
NElem(r) == Len(r.comps[1])
CompSet(r) == {<<r.comps[i], r.co[i]>> : i \in {j \in Phases(r) : r.co[j][1] # 0}}
AllRat(r) == \A i \in Phases(r) : IsRat(r.co[i])

-----------------------------------------------------------------------------
(* Conservation *)
ElemSum(r, e) == RSum([i \in Phases(r) |-> RMul(r.co[i], RInt(r.comps[i][e]))])
Conserved(r) == \A e \in 1..NElem(r) : ElemSum(r, e) = R0
NonZero(r) == \E i \in Phases(r) : r.co[i][1] # 0

(* Balancing problem: reactants and products are sequences of compositions. *)
(* The matrix has one row per element and one column per phase.             *)
StoichMatrix(cs) == FromCols(cs, Len(cs[1]))
DegFreedom(cs) == Nullity(StoichMatrix(cs), Len(cs))
\* +1 if v has the signs of a reaction with nr reactants, -1 if -v has, else 0
SignOrient(v, nr) ==
  IF \A i \in 1..Len(v) : IF i <= nr THEN v[i] < 0 ELSE v[i] > 0 THEN 1
  ELSE IF \A i \in 1..Len(v) : IF i <= nr THEN v[i] > 0 ELSE v[i] < 0 THEN -1 ELSE 0

-----------------------------------------------------------------------------
(* Transformations *)
MapCo(r, F(_)) == [r EXCEPT !.co = [i \in DOMAIN r.co |-> F(r.co[i])]]
Reverse(r) == MapCo(r, RNeg)
Scale(r, q) == LET F(x) == RMul(x, q) IN MapCo(r, F)
CoeffOf(r, comp) == LET i == CHOOSE i \in Phases(r) : r.comps[i] = comp IN r.co[i]
NormalizeTo(r, comp, f) == Scale(r, RAbs(RDiv(f, CoeffOf(r, comp))))
ElAmount(r, e) == RDiv(RSum([i \in Phases(r) |-> RMul(RAbs(r.co[i]), RInt(r.comps[i][e]))]), RInt(2))
NormalizeToElement(r, e, f) == Scale(r, RDiv(f, ElAmount(r, e)))

\* same coefficient for the same phase on both sides
SameStoich(a, b) == CompSet(a) = CompSet(b)

-----------------------------------------------------------------------------
(* Energies. E of a phase: lowest energy per formula unit among the entries *)
(* with that composition taking part; grand potential subtracts mu*N except *)
(* for the open element itself.                                             *)
IsPureOpen(r, i) == /\ \E k \in 1..Len(r.mu) : r.comps[i][r.mu[k][1]] > 0
                    /\ Cardinality({e \in 1..NElem(r) : r.comps[i][e] > 0}) = 1
MuShift(r, i) == IF IsPureOpen(r, i) THEN R0
                 ELSE RSum([k \in 1..Len(r.mu) |-> RMul(r.mu[k][2], RInt(r.comps[i][r.mu[k][1]]))])
PhiRaw(r, i) == RSub(r.en[i], MuShift(r, i))
SameComp(r, i) == {j \in Phases(r) : r.comps[j] = r.comps[i]}
Phi(r, i) == LET S == SetToSeqI(SameComp(r, i)) IN RMinSeq([k \in 1..Len(S) |-> PhiRaw(r, S[k])])
Energy(r) == RSum([i \in Phases(r) |-> RMul(r.co[i], Phi(r, i))])

OpenElems(r) == {r.mu[k][1] : k \in 1..Len(r.mu)}
AtomsOf(r, i) == ISum([e \in 1..NElem(r) |-> IF e \in OpenElems(r) THEN 0 ELSE r.comps[i][e]])
SideAtoms(r, sgn) == RSum([i \in Phases(r) |-> IF RSign(r.co[i]) = sgn
                                               THEN RMul(RAbs(r.co[i]), RInt(AtomsOf(r, i))) ELSE R0])
NumAtoms(r) == SideAtoms(r, 1)
EnergyPerAtom(r) == RDiv(Energy(r), NumAtoms(r))

AtomicFraction(r, i) == RDiv(RMul(RAbs(r.co[i]), RInt(AtomsOf(r, i))), NumAtoms(r))
SideMoles(r, sgn) == RSum([i \in Phases(r) |-> IF RSign(r.co[i]) = sgn THEN RAbs(r.co[i]) ELSE R0])
MolarFraction(r, i) == RDiv(RAbs(r.co[i]), SideMoles(r, RSign(r.co[i])))
Side(r, sgn) == {i \in Phases(r) : RSign(r.co[i]) = sgn}
AtomicFractions(r, sgn) == {<<r.comps[i], AtomicFraction(r, i)>> : i \in Side(r, sgn)}
MolarFractions(r, sgn) == {<<r.comps[i], MolarFraction(r, i)>> : i \in Side(r, sgn)}

-----------------------------------------------------------------------------
(* Classification *)
SideComps(r, sgn) == {r.comps[i] : i \in Side(r, sgn)}
IsIdentity(r) == SideComps(r, -1) = SideComps(r, 1)
Equal(a, b) == /\ SideComps(a, -1) = SideComps(b, -1)
               /\ SideComps(a, 1) = SideComps(b, 1)
               /\ SameStoich(a, b)
               /\ (a.kind = "basic" \/ EnergyPerAtom(a) = EnergyPerAtom(b))
\* byproducts of a reaction are separable from a target iff each is a common
\* gas or contains no element of the target
ElemsOf(comp) == {e \in DOMAIN comp : comp[e] > 0}
Separable(r, target, gases) ==
  \A i \in Side(r, 1) : \/ r.comps[i] = target
                        \/ r.comps[i] \in gases
                        \/ ElemsOf(r.comps[i]) \cap ElemsOf(target) = {}
=============================================================================
