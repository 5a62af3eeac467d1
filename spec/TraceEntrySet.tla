--------------------------- MODULE TraceEntrySet ---------------------------
(* Conformance of entry sets: histories of mutations and queries of a       *)
(* growing family of sets (C20), hull-related answers (C21).                *)
EXTENDS EntrySet, TraceIO
VARIABLES c, l, st
SetOf(s) == {s[i] : i \in DOMAIN s}
\* st = [u, tmax, unit, regs: Seq([S, t])]; energies are counted in 1/unit
Q(s, r) == RDiv(r, RInt(s.unit))
ObsFails(w, o) == Clause("C20.contents", SetOf(o.ids) = w.S /\ Len(o.ids) = Cardinality(w.S))
                  \cup Clause("C20.length", o.len = Cardinality(w.S)) \cup Clause("C20.membership", SetOf(o.isin) = w.S)
Known(s, w, e) == \* the universe has every element of the set as an elemental phase
  HasRefs(CPhase(s.u), w.S)
EqQ(s, r, x) == IsRat(x) /\ x = Q(s, r)

AnsFails(s, w, e) ==
  LET u == s.u S == w.S t == w.t IN
  CASE e.name = "list" -> Clause("C20.entries_list", e.exc = "" /\ SetOf(e.ids) = S /\ Len(e.ids) = Cardinality(S) /\ e.same)
    [] e.name = "chemsys" -> Clause("C20.chemsys", e.exc = "" /\ SetOf(e.els) = Chemsys(u, S))
    [] e.name = "temperature" -> Clause("C20.temperature", e.exc = "" /\ e.t = (IF \E x \in S : ~u[x].f THEN t ELSE -1))
    [] e.name = "min" -> LET m == MinEntries(u, S, t, e.f) IN
            Clause("C20.min_entry_by_formula", IF m = {} THEN e.exc = "KeyError" ELSE e.exc = "" /\ e.x \in m)
    [] e.name = "mins" -> Clause("C20.min_entries", e.exc = "" /\ \A f \in {u[x].c : x \in S} : \E x \in SetOf(e.ids) : x \in MinEntries(u, S, t, f)) 
                          \cup Clause("C20.min_entries_once", e.exc # "" \/ Len(e.ids) = Cardinality({u[x].c : x \in S}))
    [] e.name = "hull" ->
            IF ~Known(s, w, e) \/ ~(ElsOf(u[e.x].c) \subseteq Chemsys(u, S)) THEN Clause("C20.hull_error", e.exc # "")
            ELSE IF ~\E y \in S : ElsOf(u[e.x].c) \subseteq ElsOf(u[y].c) THEN {}
            ELSE LET a == TLCEval(AboveHull(u, S, t, e.x)) IN
                 IF RLt(a, R0) THEN Clause("C20.hull_below", e.exc # "" \/ EqQ(s, a, e.val)) \* not a member, below the hull
                 ELSE Clause("C20.e_above_hull", e.exc = "" /\ EqQ(s, a, e.val)) \cup Clause("C21.e_above_hull", e.exc = "" /\ EqQ(s, a, e.val))
    [] e.name = "hulldata" ->
            IF ~Known(s, w, e) THEN {} ELSE
            Clause("C21.stored_e_above_hull", \A i \in DOMAIN e.ids : e.ids[i] \in S /\ EqQ(s, AboveHull(u, S, t, e.ids[i]), e.vals[i]))
    [] e.name = "indices" -> Clause("C20.indices", e.exc = "" /\ SetOf(e.ids) = S /\ Len(e.ids) = Cardinality(S) /\ e.idx = [i \in 1..Len(e.ids) |-> i - 1])
    [] e.name = "stabilized" ->
            IF e.exc # "" THEN Clause("C21.stabilized_exception", ~Known(s, w, e)) ELSE
            LET a == IF e.given[2] # 0 THEN e.given ELSE Q(s, AboveHull(u, S, t, e.x))
                n == NAt(u[e.x].c) * u[e.x].m
                old == Q(s, RInt(PerAtom(u, e.x, t) * n))
                low == RSub(RSub(old, RMul(a, RInt(n))), e.tol)
                \* a phase on the hull stays as it is, unless its computed distance is off by round-off (it may then be lowered)
                want == IF a = R0 /\ ~e.force THEN (IF e.zero THEN {old} ELSE {old, low}) ELSE {low}
            IN Clause("C21.stabilized_energy", e.energy \in want)
               \cup Clause("C21.stabilized_composition", e.comp = [k \in DOMAIN u[e.x].c |-> u[e.x].c[k] * u[e.x].m])
               \cup Clause("C21.stabilized_identity", e.idok) \cup Clause("C21.stabilized_original_unchanged", e.origok)
               \cup Clause("C21.stabilized_new_object", (a = R0 /\ ~e.force) \/ ~e.sameobj)
    [] e.name = "interpolated" ->
            LET sub == SubsetIn(u, S, ElsOf(e.f)) IN
            IF ~(ElsOf(e.f) \subseteq Chemsys(u, S)) \/ ~HasRefs(CPhase(u), sub) \/ ~(ElsOf(e.f) \subseteq Chemsys(u, sub)) THEN Clause("C21.interpolated_error", e.exc # "")
            ELSE IF e.exc # "" THEN {"C21.interpolated_exception:" \o e.exc}
            ELSE Clause("C21.interpolated_energy", e.energy = RSub(Q(s, HullE(CPhase(u), EPhase(u, t), S, e.f)), RMul(e.tol, RInt(NAt(e.f)))))
                 \cup Clause("C21.interpolated_composition", e.comp = e.f) \cup Clause("C21.interpolated_kind", e.kind = "InterpolatedEntry")
    [] e.name = "jitter" ->
            IF e.exc # "" THEN {"C21.jitter_exception:" \o e.exc}
            ELSE Clause("C21.jitter_keeps_compounds", \A x \in S : Cardinality(ElsOf(u[x].c)) > 1 => x \in SetOf(e.ids))
                 \cup Clause("C21.jitter_drops_elements", \A x \in S : Cardinality(ElsOf(u[x].c)) = 1 => x \in SetOf(e.ids))
                 \cup Clause("C21.jitter_nothing_else", SetOf(e.ids) \subseteq S /\ Len(e.ids) = Cardinality(SetOf(e.ids)))
                 \cup Clause("C21.jitter_size", \A i \in DOMAIN e.ids : e.ok[i])
    [] e.name = "adjusted" -> IF e.exc # "" THEN {"C21.adjusted_exception:" \o e.exc} ELSE
            LET n == NAt(u[e.x].c) * u[e.x].m IN Clause("C21.adjusted_energy", e.energy = RAdd(Q(s, RInt(PerAtom(u, e.x, t) * n)), e.tol))
            \cup Clause("C21.adjusted_identity", e.idok) \cup Clause("C21.adjusted_original_unchanged", e.origok)

\* results of set-valued operations: fails and the new register
Res(s, e) ==
  LET u == s.u w == IF e.i = 0 THEN [S |-> {}, t |-> e.t] ELSE s.regs[e.i] IN
  CASE e.name = "new" -> [w |-> [S |-> SetOf(e.ids), t |-> e.t], fails |-> {}]
    [] e.name \in {"add", "update", "ior"} -> [w |-> [w EXCEPT !.S = @ \cup SetOf(e.ids)], fails |-> {}]
    [] e.name \in {"discard", "remove", "isub"} -> [w |-> [w EXCEPT !.S = @ \ SetOf(e.ids)],
             fails |-> IF e.name = "remove" THEN Clause("C20.remove_missing", (e.exc = "KeyError") = (SetOf(e.ids) \cap w.S = {})) ELSE {}]
    [] e.name = "pop" -> [w |-> [w EXCEPT !.S = @ \ SetOf(e.ids)], fails |-> Clause("C20.pop", IF w.S = {} THEN e.exc = "KeyError" ELSE e.exc = "" /\ Len(e.ids) = 1 /\ e.ids[1] \in w.S)]
    [] e.name = "clear" -> [w |-> [w EXCEPT !.S = {}], fails |-> {}]
    [] e.name = "iand" -> [w |-> [w EXCEPT !.S = @ \cap SetOf(e.ids)], fails |-> {}]
    [] e.name \in {"copy", "json", "dict", "deepcopy"} -> [w |-> w, fails |-> {}]
    [] e.name = "or" -> [w |-> [w EXCEPT !.S = @ \cup s.regs[e.j].S], fails |-> {}]
    [] e.name = "and" -> [w |-> [w EXCEPT !.S = @ \cap s.regs[e.j].S], fails |-> {}]
    [] e.name = "sub" -> [w |-> [w EXCEPT !.S = @ \ s.regs[e.j].S], fails |-> {}]
    [] e.name = "temp" -> [w |-> [S |-> AtTemperature(u, w.S, e.t, s.tmax), t |-> e.t], fails |-> {}]
    [] e.name = "subset" -> [w |-> [w EXCEPT !.S = SubsetIn(u, w.S, SetOf(e.els))],
             fails |-> Clause("C20.subset_error", (e.exc # "") = ~(SetOf(e.els) \subseteq Chemsys(u, w.S)))]
    [] e.name = "filter" -> LET F == SetOf(e.obs.ids) ok == HasRefs(CPhase(u), w.S) IN
             [w |-> [w EXCEPT !.S = F],
              fails |-> IF ~ok THEN Clause("C20.filter_error", e.exc # "")
                        ELSE IF e.exc # "" THEN {"C21.filter_exception:" \o e.exc, "C20.filter_exception:" \o e.exc}
                        ELSE LET okf == FilterOk(u, w.S, w.t, RMul(e.tol, RInt(s.unit)), e.poly, F) IN Clause("C21.filter_by_stability", okf) \cup Clause("C20.filter_by_stability", okf)]
Inplace == {"add", "update", "ior", "discard", "remove", "isub", "pop", "clear", "iand"}
Errs == {"remove", "pop", "subset", "filter"}
SetOp(s, e) ==
  LET r == TLCEval(Res(s, e)) IN
  \* energies above the hull asked for where there is none
  IF e.exc # "" /\ e.calc /\ ~HasRefs(CPhase(s.u), r.w.S) THEN [st |-> s, fails |-> {}]
  ELSE IF e.exc # "" /\ e.name \notin Errs THEN [st |-> s, fails |-> {"C20.no_exception:" \o e.name \o ":" \o e.exc}]
  ELSE IF e.exc # "" THEN [st |-> s, fails |-> r.fails \cup (IF e.name = "filter" \/ e.name = "subset" THEN {} ELSE ObsFails(s.regs[e.i], e.obs))]
  ELSE LET regs == IF e.name \in Inplace THEN [s.regs EXCEPT ![e.i] = r.w] ELSE Append(s.regs, r.w) IN
       [st |-> [s EXCEPT !.regs = regs],
        fails |-> r.fails \cup ObsFails(r.w, e.obs)
                  \cup Clause("C20.temperature_of_result", \A i \in DOMAIN e.obs.ts : e.obs.ts[i] = r.w.t \/ s.u[e.obs.ids[i]].f)
                  \cup (IF e.name \in Inplace \/ e.i = 0 THEN {} ELSE {"C20.source_changed:" \o x : x \in ObsFails(s.regs[e.i], e.src)})]
Apply(s, e) ==
  CASE e.op = "universe" -> [st |-> [u |-> e.u, tmax |-> e.tmax, unit |-> e.unit, regs |-> <<>>], fails |-> {}]
    [] e.op = "set" -> SetOp(s, e)
    [] e.op = "ask" -> [st |-> s, fails |-> AnsFails(s, s.regs[e.i], e)]

Init == c \in 1..Len(Trace) /\ l = 1 /\ st = 0
Next == /\ l <= Len(Trace[c].ev)
        /\ LET r == Apply(st, Trace[c].ev[l]) IN st' = r.st /\ Report(c, l, r.fails)
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
