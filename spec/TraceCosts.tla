----------------------------- MODULE TraceCosts -----------------------------
(* Conformance of cost functions and calculators (C27).                     *)
EXTENDS Costs, TraceIO
VARIABLES c, l, st
RangeOf(s) == {s[i] : i \in DOMAIN s}
DataSet(q) == RangeOf(q)
Attrs(w) == [i \in DOMAIN w.rxns |-> RangeOf(w.rxns[i].attrs)]
Start(w) == [w |-> w, attrs |-> TLCEval(Attrs(w)), objs |-> [i \in DOMAIN w.objs |-> [r |-> w.objs[i].r, data |-> DataSet(w.objs[i].data)]], seen |-> {}]
FTol(f) == 20 + FoldLeft(LAMBDA a, b : a + Abs(b), 0, f.w)
\* values of calculators: what the definition (or a calculator used for nothing else) gives
\* every distance and offset is rounded
CalcTol(s, k, r) == LET k1 == s.w.calcs[k] IN IF k1.kind = "pairs" THEN 3 + 2 * Len(PairSeq(s.w.rxns[r])) ELSE 3
CalcValue(s, k, r) == LET k1 == s.w.calcs[k] IN
  IF k1.kind = "pairs" THEN Aggregate(k1.agg, Distances(s.w.rxns[r], s.w.dist, s.w.off)) ELSE k1.vals[r]
\* nothing but what the operation may change has changed
Snapshot(s, e, objs) ==
  Clause("C27.data_of_every_reaction", Len(e.after) = Len(objs) /\ \A i \in DOMAIN objs : i \in DOMAIN e.after => DataSet(e.after[i].data) = objs[i].data)
  \cup Clause("C27.reactions_unchanged", \A i \in DOMAIN e.after : e.after[i].same)
EvalFails(s, e) ==
  LET f == s.w.fns[e.f] o == s.objs[e.o] miss == Missing(s.attrs, o, f.p) IN
  Clause("C27.missing_parameter_is_an_error", miss => e.exc = "ValueError")
  \cup Clause("C27.no_exception:" \o e.exc, ~miss => e.exc = "")
  \cup (IF miss \/ e.exc # "" THEN {} ELSE
     LET x == TLCEval(Total(s.attrs, o, f)) IN
     Clause("C27.cost_value", NearBy(e.v, CostOf(s.attrs, o, f), FTol(f)))
     \cup (IF f.kind # "softplus" THEN {} ELSE
        Clause("C27.softplus_positive", x > -69000000 => e.pos) \* below, exp(x) is no number of the machine
        \cup Clause("C27.softplus_increasing", \A z \in s.seen : (z[1] = e.f /\ z[2] > -69000000 /\ x > -69000000) => /\ (z[2] < x - FTol(f) => z[3] < e.rank)
                                                                           /\ (z[2] > x + FTol(f) => z[3] > e.rank))))
EvalStep(s, e) ==
  LET f == s.w.fns[e.f] o == s.objs[e.o] IN
  [st |-> IF e.exc = "" /\ ~Missing(s.attrs, o, f.p) THEN [s EXCEPT !.seen = @ \cup {<<e.f, Total(s.attrs, o, f), e.rank>>}] ELSE s,
   fails |-> EvalFails(s, e) \cup Snapshot(s, e, s.objs)]
CalcStep(s, e) ==
  [st |-> s, fails |-> (IF e.exc # "" THEN {"C27.no_exception:" \o e.exc} ELSE
      Clause("C27.one_value_each", Len(e.vs) = Len(e.os))
      \cup Clause("C27.calculated_value", \A i \in DOMAIN e.os : i \in DOMAIN e.vs => NearBy(e.vs[i], CalcValue(s, e.k, s.objs[e.os[i]].r), CalcTol(s, e.k, s.objs[e.os[i]].r))))
     \cup Snapshot(s, e, s.objs)]
\* decorated copies are new objects behind the others; the value is the calculated one
DecoStep(s, e) ==
  LET key == s.w.calcs[e.k].name
      val(i) == LET d == DataSet(e.after[Len(s.objs) + i].data) IN IF Has(d, key) THEN Get(d, key) ELSE -2000000000
      new == IF e.exc # "" \/ Len(e.after) # Len(s.objs) + Len(e.os) THEN <<>>
             ELSE [i \in DOMAIN e.os |-> Decorated(s.objs[e.os[i]], key, val(i))]
      objs == s.objs \o new
  IN [st |-> [s EXCEPT !.objs = objs],
      fails |-> (IF e.exc # "" THEN {"C27.no_exception:" \o e.exc} ELSE
        Clause("C27.one_reaction_each", Len(new) = Len(e.os) /\ e.fresh)
        \cup Clause("C27.decorated_value", \A i \in DOMAIN new : NearBy(val(i), CalcValue(s, e.k, s.objs[e.os[i]].r), CalcTol(s, e.k, s.objs[e.os[i]].r))))
       \cup Snapshot(s, e, objs)]
SetStep(s, e) == LET objs == [s.objs EXCEPT ![e.o] = Decorated(@, e.key, e.v)] IN [st |-> [s EXCEPT !.objs = objs], fails |-> Snapshot(s, e, objs)]
Apply(s, e) ==
  CASE e.op = "world" -> [st |-> Start(e), fails |-> {}]
    [] e.op = "eval" -> EvalStep(s, e)
    [] e.op = "calc" -> CalcStep(s, e)
    [] e.op = "deco" -> DecoStep(s, e)
    [] e.op = "set" -> SetStep(s, e)
    [] e.op = "bad" -> [st |-> s, fails |-> Clause("C27.invalid_options_rejected", e.exc = "ValueError")]
Init == c \in 1..Len(Trace) /\ l = 1 /\ st = 0
Next == /\ l <= Len(Trace[c].ev)
        /\ LET r == Apply(st, Trace[c].ev[l]) IN st' = r.st /\ Report(c, l, r.fails)
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
