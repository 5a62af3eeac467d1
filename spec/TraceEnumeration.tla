-------------------------- MODULE TraceEnumeration --------------------------
(* Conformance of recorded enumerations (C04, C05, C07) and of the          *)
(* schedules they ran under (C06).                                          *)
EXTENDS Enumeration, TaskPool, TraceIO
VARIABLES c, l, st
SetOf(s) == {s[i] : i \in DOMAIN s}

Req(e) == [open |-> SetOf(e.open), P |-> SetOf(e.P), T |-> SetOf(e.T), hasP |-> e.hasP, hasT |-> e.hasT, xp |-> e.xp, xt |-> e.xt,
           n |-> e.n, sys |-> SetOf(e.sys), oel |-> SetOf(e.oel), mu |-> e.mu]
Uni(e) == [c |-> e.c, en |-> e.en]
RP(x) == <<SetOf(x.r), SetOf(x.p)>>
Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
SignsOk(x) == \A k \in DOMAIN x.co : IF k <= Len(x.r) THEN RSign(x.co[k]) < 0 ELSE RSign(x.co[k]) > 0
Prop(v, co) == LET k == RDiv(co[1], RInt(v[1])) IN \A i \in DOMAIN v : co[i] = RMul(k, RInt(v[i]))
DupOf(x, y) == x.r = y.r /\ x.p = y.p /\ LET k == RDiv(y.co[1], x.co[1]) IN \A i \in DOMAIN x.co : y.co[i] = RMul(k, x.co[i])

\* clauses every enumerated reaction satisfies, whatever the enumerator
Valid(u, f, rx, maxcon, filter, want) ==
       Clause("C04.known_entries", \A i \in DOMAIN rx : 0 \notin SetOf(rx[i].r) \cup SetOf(rx[i].p))
  \cup Clause("C04.distinct_phases", \A i \in DOMAIN rx : Ascending(rx[i].r) /\ Ascending(rx[i].p))
  \cup Clause("C04.strict_sides", \A i \in DOMAIN rx : SignsOk(rx[i]))
  \cup Clause("C04.balanced", \A i \in DOMAIN rx : Conserves(u, rx[i].r, rx[i].p, rx[i].co))
  \cup Clause("C04.request", \A i \in DOMAIN rx : SidesOk(u, f, SetOf(rx[i].r), SetOf(rx[i].p)))
  \cup Clause("C04.constraints", maxcon > 1 \/ \A i \in DOMAIN rx : Balance(u, SetOf(rx[i].r), SetOf(rx[i].p), AllRows(u)) # <<>>)
  \cup Clause("C04.kind", \A i \in DOMAIN rx : rx[i].kind = want)
  \cup Clause("C04.no_duplicates", filter => \A i, j \in DOMAIN rx : i = j \/ ~DupOf(rx[i], rx[j]))

JudgeEnum(e) ==
  LET u == Uni(e) f == Req(e) rx == e.rx must == TLCEval(Combinatorial(u, f)) got == {RP(rx[i]) : i \in DOMAIN rx}
      bad == 0 \in UNION {SetOf(rx[i].r) \cup SetOf(rx[i].p) : i \in DOMAIN rx}
  IN IF e.exc # "" THEN {"C04.no_exception:" \o e.exc}
     ELSE IF bad THEN {"C04.known_entries"}
     ELSE Valid(u, f, rx, e.maxcon, e.filter, "computed")
          \cup Clause("C05.misses_no_reaction", must \subseteq got)
          \cup Clause("C05.only_admissible", e.maxcon > 1 \/ got \subseteq must)
          \cup Clause("C04.input_unchanged", e.unchanged)

JudgeMin(e) ==
  LET u == Uni(e) f == Req(e) rx == e.rx
      G == Ground(u, DOMAIN u.c)
      got == {RP(rx[i]) : i \in DOMAIN rx}
      bad == 0 \in UNION {SetOf(rx[i].r) \cup SetOf(rx[i].p) : i \in DOMAIN rx}
      mayReact(ab) == ReactantsOk(f, ab)
      pairs == TLCEval(PairsOf(u, f))
      CD == TLCEval([ab \in pairs |-> Cands(u, f, G, ab[1], ab[2])])
      K == TLCEval([ab \in pairs |-> {x \in CD[ab] : IsKink(x.pt, CD[ab])}])
      \* reactions that must be there
      must == TLCEval(UNION {{Complete(u, f, x.A, x.B) : x \in {x \in K[ab] : x.A # x.B /\ SystemOk(u, f, x.A) /\ Untied(x, CD[ab]) /\ ReactantsOk(f, x.A) /\ ProductsOk(f, x.B)}} : ab \in pairs})
      \* reactions that may be there: on the envelope of some pair of reactants
      Predicted(r) == LET A == r[1] \ f.open B == r[2] \ f.open
                          ab == LET s == SetToSeqI(A) IN IF Len(s) = 1 THEN <<s[1], s[1]>> ELSE <<s[1], s[2]>>
                      IN /\ Cardinality(A) \in 1..2 /\ ab \in pairs
                         /\ \E x \in CD[ab] : x.A = A /\ x.B = B /\ OnEnvelope(x.pt, CD[ab]) /\ Complete(u, f, A, B) = r
  IN IF e.exc # "" THEN {"C04.no_exception:" \o e.exc}
     ELSE IF bad THEN {"C04.known_entries"}
     ELSE Valid(u, [f EXCEPT !.n = 9], rx, e.maxcon, e.filter, IF e.op = "grand" THEN "open" ELSE "computed")
          \cup Clause("C07.at_most_two_reactants", \A r \in got : Cardinality(r[1] \ f.open) <= 2)
          \cup Clause("C07.only_predicted", \A r \in got : Predicted(r))
          \cup Clause("C07.all_predicted", \A r \in must \ got : f.open # {} /\ (r[1] \cup r[2]) \cap f.open = {})
          \cup Clause("C07.all_predicted_not_using_open_element", \A r \in must \ got : ~(f.open # {} /\ (r[1] \cup r[2]) \cap f.open = {}))
          \cup Clause("C07.chempot", \A i \in DOMAIN rx : rx[i].mu = (IF e.op = "grand" THEN <<<<CHOOSE o \in f.oel : TRUE, RInt(f.mu)>>>> ELSE <<>>))
          \cup Clause("C04.input_unchanged", e.unchanged)

-----------------------------------------------------------------------------
Norm(x) == [r |-> x.r, p |-> x.p, co |-> [i \in DOMAIN x.co |-> RDiv(x.co[i], RAbs(x.co[1]))]]
SameBagUpToScale(a, b) ==
  LET na == TLCEval([i \in DOMAIN a |-> Norm(a[i])]) nb == TLCEval([i \in DOMAIN b |-> Norm(b[i])])
      A == TLCEval({na[i] : i \in DOMAIN na}) B == TLCEval({nb[i] : i \in DOMAIN nb})
  IN Len(a) = Len(b) /\ A = B
     /\ (Cardinality(A) = Len(a) \/ \A x \in A : Cardinality({i \in DOMAIN na : na[i] = x}) = Cardinality({i \in DOMAIN nb : nb[i] = x}))
JudgeRun(s, e) ==
  IF e.exc # "" THEN {"C06.no_exception:" \o e.exc}
  ELSE Clause("C06.same_reactions", SameBagUpToScale(s.rx, e.rx))
       \cup Clause("C06.job_limit", e.njobs <= e.maxjobs + 1)
       \cup {"C06." \o x : x \in PoolFails(e.ntasks, e.log)}

JudgeMulti(e) ==
  IF e.exc # "" THEN {"C04.no_exception_multi:" \o e.exc}
  ELSE Clause("C04.multi_covers", \A k \in DOMAIN e.lists : \A i \in DOMAIN e.lists[k] : \E j \in DOMAIN e.rx : DupOf(e.lists[k][i], e.rx[j]))
       \cup Clause("C04.multi_nothing_else", \A j \in DOMAIN e.rx : \E k \in DOMAIN e.lists : \E i \in DOMAIN e.lists[k] : DupOf(e.lists[k][i], e.rx[j]))
       \cup Clause("C04.multi_no_duplicates", \A i, j \in DOMAIN e.rx : i = j \/ ~DupOf(e.rx[i], e.rx[j]))

Apply(s, e) ==
  CASE e.op = "enum" -> [st |-> e, fails |-> JudgeEnum(e)]
    [] e.op \in {"gibbs", "grand"} -> [st |-> e, fails |-> JudgeMin(e)]
    [] e.op = "base" -> [st |-> e, fails |-> Clause("C06.no_exception_base", e.exc = "")]
    [] e.op = "multi" -> [st |-> s, fails |-> JudgeMulti(e)]
    [] e.op = "run" -> [st |-> s, fails |-> JudgeRun(s, e)]

Init == c \in 1..Len(Trace) /\ l = 1 /\ st = 0
Next == /\ l <= Len(Trace[c].ev)
        /\ LET r == Apply(st, Trace[c].ev[l]) IN st' = r.st /\ Report(c, l, r.fails)
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
