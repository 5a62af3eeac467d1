--------------------------- MODULE TraceReaction ---------------------------
(* Conformance of recorded calls on reaction objects (C01, C02, C03).       *)
EXTENDS Reaction, TraceIO
VARIABLES c, l, st

-----------------------------------------------------------------------------
(* balance(reactants, products): op, re, pr, exc, bal, err (-1 = no        *)
(* solution), nc, out (reaction record), fx (coefficients * 10^4, rounded)  *)
FxResidual(cs, fx, e) == RatAbs(ISum([i \in 1..Len(cs) |-> cs[i][e] * fx[i]]))
FxSlack(cs, e) == ISum([i \in 1..Len(cs) |-> cs[i][e]]) + 1
FxConserved(cs, fx) == \A e \in 1..Len(cs[1]) : FxResidual(cs, fx, e) <= FxSlack(cs, e)

JudgeBalance(e) ==
  LET cs == e.re \o e.pr
      nr == Len(e.re)
      M == StoichMatrix(cs)
      nul == Nullity(M, Len(cs))
      v == IF nul = 1 THEN NullVec(M, Len(cs)) ELSE <<>>
      o == IF nul = 1 THEN SignOrient(v, nr) ELSE 0
      wrong == {i \in 1..Len(cs) : IF i <= nr THEN e.sgn[i] >= 0 ELSE e.sgn[i] <= 0}
      good == e.bal /\ e.err = 0
  IN IF e.exc # "" THEN {"C01.no_exception"}
     ELSE Clause("C01.phases_listed_in_order", e.comps = cs)
     \cup Clause("C01.sound_conserved", e.bal => FxConserved(cs, e.fx))
     \cup Clause("C01.sound_exact", (good /\ nul = 1) =>
                 (AllRat(e.out) /\ Conserved(e.out)))
     \cup Clause("C01.sound_signs", good => wrong = {})
     \cup Clause("C01.sides_match_signs", good => (e.rct = nr /\ e.prd = Len(cs) - nr))
     \cup Clause("C01.complete", (o # 0) => good)
     \cup Clause("C01.complete_proportional", (o # 0 /\ good) =>
                 \A i, j \in 1..Len(cs) : REq(RMul(e.out.co[i], RInt(v[j])), RMul(e.out.co[j], RInt(v[i]))))
     \cup Clause("C01.errors_counted", (e.bal /\ e.err > 0) => Cardinality(wrong) = e.err)
     \cup Clause("C01.unsolvable_flagged", (nul = 0) => (~e.bal /\ e.err = -1))
     \cup Clause("C01.unsolvable_no_phantom", (~e.bal) => \A i \in 1..Len(cs) : e.sgn[i] = 0)
     \cup Clause("C01.constraints", e.nc = (IF nul >= 2 THEN nul ELSE 1))

(* construction from explicit coefficients: balanced iff conserved *)
JudgeBuild(e) ==
  IF e.exc # "" THEN {"C01.no_exception"}
  ELSE Clause("C01.flag_is_conservation", e.bal = Conserved(e.rxn))
       \cup Clause("C01.identity_flag", e.bal => (e.ident = IsIdentity(e.rxn)))

-----------------------------------------------------------------------------
(* transformation of the current reaction st.r *)
Expected(r, e) ==
  CASE e.name = "copy" -> r
    [] e.name = "reverse" -> Reverse(r)
    [] e.name = "normalize_to" -> NormalizeTo(r, e.comp, e.factor)
    [] e.name = "normalize_to_element" -> NormalizeToElement(r, e.el, e.factor)
    [] e.name = "string" -> r

JudgeXform(r, e) ==
  IF e.exc # "" THEN {"C02.no_exception:" \o e.name}
  ELSE LET x == Expected(r, e) IN
       Clause("C02.coefficients:" \o e.name, AllRat(e.out) /\ SameStoich(e.out, x))
       \cup Clause("C02.kind:" \o e.name, e.out.kind = r.kind)
       \cup Clause("C02.chempots:" \o e.name, e.out.mu = r.mu)
       \cup Clause("C02.balanced:" \o e.name, e.bal = Conserved(r))
       \cup Clause("C02.energy:" \o e.name, (r.kind # "basic") => REq(e.energy, Energy(x)))
       \cup Clause("C02.original_unchanged:" \o e.name, SameStoich(e.after, r) /\ e.after.kind = r.kind)

JudgeEq(e) ==
  IF e.exc # "" THEN {"C02.no_exception:eq"}
  ELSE Clause("C02.equality", e.eq = Equal(e.a, e.b))
       \cup Clause("C02.equality_symmetric", e.eq = e.qe)
       \cup Clause("C02.hash", (Equal(e.a, e.b)) => e.hash)

JudgeSep(e) ==
  IF e.exc # "" THEN {"C02.no_exception:separable"}
  ELSE Clause("C02.separable", e.sep = Separable(e.rxn, e.target, {e.gases[i] : i \in 1..Len(e.gases)}))

-----------------------------------------------------------------------------
(* thermodynamics of one reaction *)
PairSet(s) == {<<s[i][1], s[i][2]>> : i \in 1..Len(s)}
JudgeThermo(e) ==
  IF e.exc # "" THEN {"C03.no_exception:" \o e.exc}
  ELSE LET r == e.rxn IN
     Clause("C03.energy", REq(e.energy, Energy(r)))
     \cup Clause("C03.energy_per_atom", REq(e.epa, EnergyPerAtom(r)))
     \cup Clause("C03.num_atoms", REq(e.natoms, NumAtoms(r)))
     \cup Clause("C03.reactant_atomic_fractions", PairSet(e.raf) = AtomicFractions(r, -1))
     \cup Clause("C03.product_atomic_fractions", PairSet(e.paf) = AtomicFractions(r, 1))
     \cup Clause("C03.reactant_molar_fractions", PairSet(e.rmf) = MolarFractions(r, -1))
     \cup Clause("C03.product_molar_fractions", PairSet(e.pmf) = MolarFractions(r, 1))
     \cup Clause("C03.element_amount", \A k \in 1..Len(e.elam) : REq(e.elam[k], ElAmount(r, k)))
     \cup Clause("C03.reverse_energy", REq(e.renergy, RNeg(Energy(r))))
     \cup Clause("C03.repr_energy_again", REq(e.energy2, Energy(r)))
     \* squared uncertainty: entries are independent
     \cup Clause("C03.uncertainty", (e.unc2 # <<0, 1>> \/ e.hasunc) =>
            REq(e.unc2, RSum([i \in Phases(r) |-> RMul(RMul(r.co[i], r.co[i]), RMul(e.us[i], e.us[i]))])))

-----------------------------------------------------------------------------
Apply(s, e) ==
  CASE e.op = "balance" -> [st |-> s, fails |-> JudgeBalance(e)]
    [] e.op = "build" -> [st |-> s, fails |-> JudgeBuild(e)]
    [] e.op = "start" -> [st |-> e.rxn, fails |-> {}]
    [] e.op = "xform" -> [st |-> Expected(s, e), fails |-> JudgeXform(s, e)]
    [] e.op = "eq" -> [st |-> s, fails |-> JudgeEq(e)]
    [] e.op = "sep" -> [st |-> s, fails |-> JudgeSep(e)]
    [] e.op = "thermo" -> [st |-> s, fails |-> JudgeThermo(e)]

Init == c \in 1..Len(Trace) /\ l = 1 /\ st = 0
Next == /\ l <= Len(Trace[c].ev)
        /\ LET r == Apply(st, Trace[c].ev[l]) IN st' = r.st /\ Report(c, l, r.fails)
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
