---------------------------- MODULE TraceEntries ----------------------------
(* Conformance of temperature-dependent entries (C22) and of the choice of  *)
(* entries when an entry set is built from computed entries (C23).          *)
EXTENDS Entries, TraceIO
VARIABLES c, l, st
R == INSTANCE Rat
SetOf(s) == {s[i] : i \in DOMAIN s}
Tol(s) == 30 + 4 * s.m + s.n
BaseAt(s, T) == IF \E i \in DOMAIN s.base : s.base[i].T = T THEN s.base[CHOOSE i \in DOMAIN s.base : s.base[i].T = T].e ELSE 0
Uncorrected(s, T) == CASE s.k \in {"nist", "freed"} -> IF s.dep THEN 0 ELSE s.m * Interp(s.tab, s.lo, T)
                       [] s.k = "gibbs" -> GibbsE(s, T, BaseAt(s, T))
                       [] s.k = "interp" -> s.e0
Energy(s, T) == Uncorrected(s, T) + SumAdj(s.adj, IF s.k = "interp" THEN s.T0 ELSE T)
ObsFails(s, o) ==
  Clause("C22.energy", Near(o.E, Energy(s, s.T), Tol(s)))
  \cup Clause("C22.correction", Near(o.corr, SumAdj(s.adj, IF s.k = "interp" THEN s.T0 ELSE s.T), Tol(s)))
  \cup Clause("C22.applied_once", o.nadj = Len(s.adj))
  \cup Clause("C22.temperature", s.k = "interp" \/ o.T = s.T)
  \cup Clause("C22.composition", o.comp = s.comp) \cup Clause("C22.identity", o.idok)
  \cup Clause("C22.kind", o.k = s.k)
TempFails(s, e) ==
  LET n == Convert(s, e.T) IN
  IF ~ValidT(s, e.T) THEN Clause("C22.range_error", e.exc = "ValueError") \cup (IF e.exc = "" THEN {} ELSE ObsFails(s, e.prev))
  ELSE IF e.exc # "" THEN {"C22.no_exception:" \o e.how \o ":" \o e.exc}
  ELSE ObsFails(n, e.obs) \cup {"C22.original_changed:" \o f : f \in ObsFails(s, e.prev)}
       \cup (IF s.k = "interp" THEN {} ELSE
             Clause("C22.equals_fresh", e.eq) \cup Clause("C22.hash_of_fresh", e.hasheq) \cup Clause("C22.unique_id_of_fresh", e.uideq)
             \cup Clause("C22.energy_of_fresh", Near(e.obs.E, e.fresh, 2)))
-----------------------------------------------------------------------------
\* building: e.inp, e.opts (sources), e.carb, e.co2, e.got: sequence of members
FormE(s, x) == \* formation energy per atom, in 1/unit
  LET N == R!ISum(x.comp) ref(k) == R!RMinSeq([j \in 1..Len(s.refs[k]) |-> R!RInt(s.refs[k][j])])
  IN R!RSub(R!RInt(x.e), R!RSum([k \in DOMAIN x.comp |-> IF x.comp[k] = 0 THEN R!R0 ELSE R!RMul(R!RNorm(x.comp[k], N), ref(k))]))
CompAdj(e, x) == (IF e.carb /\ x.carbonate THEN <<[k |-> "const", v |-> 830000 * x.nc]>> ELSE <<>>)
                 \o (IF e.co2 /\ x.isco2 THEN <<[k |-> "co2", v |-> R!ISum(x.comp)]>> ELSE <<>>)
BuildFails(s, e) ==
  IF e.exc # "" THEN {"C23.no_exception:" \o e.exc} ELSE
  LET inp == s.inp opts == SetOf(e.opts)
      src == [i \in DOMAIN inp |-> [inp[i] EXCEPT !.src = SetOf(e.src[i])]]
      X == {<<"exp", g.src, g.f>> : g \in {e.got[i] : i \in {j \in DOMAIN e.got : e.got[j].src # ""}}}
      K == {e.got[i].i : i \in {j \in DOMAIN e.got : e.got[j].src = ""}}
  IN Clause("C23.experimental_phases", X = ExpOf(src, opts))
     \cup Clause("C23.phases", K \subseteq DOMAIN inp /\ (X = ExpOf(src, opts) => Covers(src, opts, X, K)))
     \cup Clause("C23.once", Len(e.got) = Cardinality(X) + Cardinality(K))
     \cup Clause("C23.temperature", \A i \in DOMAIN e.got : e.got[i].T = e.T)
     \cup (IF ~(K \subseteq DOMAIN inp) THEN {} ELSE
       UNION {LET g == e.got[i] IN
           IF g.src # "" THEN
             LET want == IF e.co2 /\ g.isco2 THEN SumAdj(<<[k |-> "co2", v |-> 3]>>, 10 * e.T) ELSE 0
             IN Clause("C23.experimental_corrections", Near(g.adj, want, 6) /\ g.nadj = (IF e.co2 /\ g.isco2 THEN 1 ELSE 0))
           ELSE LET x == inp[g.i] want == CompAdj(e, x) IN
             Clause("C23.formation_energy", g.form = R!RDiv(FormE(s, x), R!RInt(s.unit)))
             \cup Clause("C23.composition", g.comp = x.comp) \cup Clause("C23.volume", g.volok)
             \cup Clause("C23.corrections", Near(g.adj, SumAdj(want, 10 * e.T), 12) /\ g.nadj = Len(want))
             \cup Clause("C23.metadata", e.min \/ g.dataok)
         : i \in DOMAIN e.got})
     \cup Clause("C23.options_kept", e.flag = e.calc)
     \cup Clause("C23.stored_e_above_hull", e.hullok)
     \cup Clause("C23.input_unchanged", e.inputok) \cup Clause("C23.earlier_sets_unchanged", e.earlierok)
-----------------------------------------------------------------------------
\* processing: filter at one temperature, add required formulas, convert to another. Phases of
\* the built set: e.ph[i] = [f, a (energy above the hull, micro-eV per atom), e (energy per atom)]
ProcFails(e) ==
  IF e.exc # "" THEN {"C23.process_exception:" \o e.exc} ELSE
  LET P == DOMAIN e.ph
      sure == {i \in P : e.ph[i].a < e.tol \/ (e.tol = 0 /\ e.ph[i].stable)}
      maybe == {i \in P : e.ph[i].a <= e.tol + 1}
      low(i) == \A j \in P : e.ph[j].f = e.ph[i].f => e.ph[i].e <= e.ph[j].e + 1
      G == SetOf(e.got) forms == {e.ph[i].f : i \in P}
      inc == {i \in P : e.ph[i].f \in SetOf(e.inc) /\ low(i)}
      lost == {i \in P : ~e.ph[i].valid}    \* cannot be converted to the final temperature
  IN Clause("C23.process_nothing_else", G \subseteq maybe \cup inc)
     \cup Clause("C23.process_keeps_stable", \A i \in sure \ lost : IF e.poly THEN i \in G ELSE (~(\E j \in lost : e.ph[j].f = e.ph[i].f) => \E j \in G : e.ph[j].f = e.ph[i].f))
     \cup Clause("C23.process_ground_states", e.poly \/ \A i \in G : low(i))
     \cup Clause("C23.process_required_formulas", \A i \in DOMAIN e.inc : (e.inc[i] \in forms /\ ~\E j \in lost : e.ph[j].f = e.inc[i]) => \E j \in G : e.ph[j].f = e.inc[i])
     \cup Clause("C23.process_interpolated", SetOf(e.interp) = {e.inc[i] : i \in DOMAIN e.inc} \ forms)
     \cup Clause("C23.process_temperature", \A i \in DOMAIN e.ts : e.ts[i] = e.T)
     \cup Clause("C23.process_once", e.n = Cardinality(G) + Cardinality(SetOf(e.interp)))
Apply(s, e) ==
  CASE e.op = "entry" -> LET x == [k |-> e.k, m |-> e.m, n |-> e.n, adj |-> e.adj, T |-> e.T, T0 |-> e.T, tab |-> e.tab, lo |-> e.lo, dep |-> e.dep, base |-> e.base, form |-> e.form, els |-> e.els, e0 |-> e.e0, comp |-> e.comp]
                         IN [st |-> x, fails |-> ObsFails(x, e.obs)]
    [] e.op = "temp" -> [st |-> IF e.exc = "" /\ ValidT(s, e.T) THEN Convert(s, e.T) ELSE s, fails |-> TempFails(s, e)]
    [] e.op = "same" -> [st |-> s, fails |-> IF e.exc # "" THEN {"C22.no_exception:" \o e.how \o ":" \o e.exc} ELSE ObsFails(s, e.obs) \cup Clause("C22.copy_equal", e.eq) \cup Clause("C22.copy_hash", e.hasheq)]
    [] e.op = "cmp" -> [st |-> s, fails |-> IF e.exc # "" THEN {"C22.no_exception:compare:" \o e.exc} ELSE
                          Clause("C22.equal_exactly_when_the_same:" \o e.what, e.eq = (e.what = "same") /\ e.rev = e.eq) \cup Clause("C22.equal_entries_have_equal_hashes", e.eq => e.hasheq)]
    [] e.op = "inputs" -> [st |-> e, fails |-> {}]
    [] e.op = "build" -> [st |-> s, fails |-> BuildFails(s, e)]
    [] e.op = "process" -> [st |-> s, fails |-> ProcFails(e)]

Init == c \in 1..Len(Trace) /\ l = 1 /\ st = 0
Next == /\ l <= Len(Trace[c].ev)
        /\ LET r == Apply(st, Trace[c].ev[l]) IN st' = r.st /\ Report(c, l, r.fails)
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
