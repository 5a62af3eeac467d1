----------------------------- MODULE TraceFlow -----------------------------
(* Conformance of workflow makers (C31). Recorded: makers with their        *)
(* options, makers derived from or changed in between, the jobs of the      *)
(* flows built (with references to the jobs whose outputs they consume),    *)
(* the results of running them in some order, and of doing the same without *)
(* a workflow.                                                              *)
EXTENDS Flow, TraceIO
VARIABLES c, l, st
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Start == [m |-> <<>>, f |-> <<>>, jobs |-> <<>>, val |-> <<>>]
S(q) == {q[i] : i \in DOMAIN q}
RECURSIVE Want(_, _)
Want(o, s) ==
  [kind |-> s[1], at |-> At(o, s), own |-> o.own[s[1]],
   enums |-> {<<e[1], e[2], e[3], o.enum[e[1]]>> : e \in Enumerators(o, s)},
   given |-> IF s[1] = "enum" THEN o.given ELSE "",
   inc |-> IF s[1] = "entries" THEN S(o.inc) \cup S(o.pre) \cup S(o.tgt) ELSE {},
   chem |-> IF s[1] = "entries" THEN S(o.elems) ELSE {},
   needs |-> {<<n[1], Want(o, n[2])>> : n \in Needs(o, s)}]
RECURSIVE Have(_, _, _)
Have(jobs, i, fuel) ==
  LET j == jobs[i] IN
  [kind |-> j.kind, at |-> <<j.open, j.mu>>, own |-> j.own, enums |-> S(j.enums), given |-> j.given, inc |-> S(j.inc), chem |-> S(j.chem),
   needs |-> IF fuel = 0 THEN {"cycle"} ELSE {<<r[1], IF r[2] = 0 THEN "elsewhere" ELSE Have(jobs, r[2], fuel - 1)>> : r \in S(j.refs)}]
Opts(s, e) == LET o == s.m[e.m] IN
  [o EXCEPT !.given = e.given, !.pre = e.pre, !.tgt = e.tgt, !.elems = e.elems]
Merge(o, ch) == [k \in DOMAIN o |-> IF k \in DOMAIN ch THEN ch[k] ELSE o[k]]
Step(s, e) ==
  CASE e.op = "maker" -> [s EXCEPT !.m = Put(@, e.m, e.o)]
    [] e.op = "derive" -> IF e.exc # "" THEN s ELSE [s EXCEPT !.m = Put(@, e.to, Merge(s.m[e.m], e.o))]
    [] e.op = "assign" -> [s EXCEPT !.m = Put(@, e.m, Merge(s.m[e.m], e.o))]
    [] e.op = "flow" -> IF e.exc # "" THEN s ELSE [s EXCEPT !.f = Put(@, e.f, Opts(s, e)), !.jobs = Put(@, e.f, e.jobs)]
    [] e.op = "direct" -> [s EXCEPT !.val = Put(@, <<e.f, e.stage>>, e.value)]
    [] OTHER -> s
Jobs(o, jobs) ==
  LET n == Len(jobs)
      have == TLCEval([i \in 1..n |-> Have(jobs, i, 5)])
      want == TLCEval([s \in Stages(o) |-> Want(o, s)])
      many == {s \in Stages(o) : Cardinality({i \in 1..n : have[i] = want[s]}) # Cardinality({t \in Stages(o) : want[t] = want[s]})}
      odd == {i \in 1..n : \A s \in Stages(o) : have[i] # want[s]}
  IN {"C31.stage:" \o s[1] : s \in many} \cup {"C31.only_requested_stages:" \o jobs[i].kind : i \in odd}
     \cup {"C31.job:" \o jobs[i].kind : i \in {i \in 1..n : ~jobs[i].stored}}
(* results have several parts, ? is one which may be anything                *)
Agree(v, w) == Len(v) = Len(w) /\ \A i \in DOMAIN v : w[i] = "?" \/ v[i] = w[i]
Fails(s, e) ==
  CASE e.op = "derive" -> Clause("C31.no_exception:derive:" \o e.exc, e.exc = "")
    [] e.op = "maker_seen" -> {"C31.maker_unchanged:" \o k : k \in {k \in DOMAIN s.m[e.m] : s.m[e.m][k] # e.o[k]}}
    [] e.op = "flow" -> IF e.exc # "" THEN {"C31.no_exception:make:" \o e.exc} ELSE Jobs(Opts(s, e), e.jobs)
    [] e.op = "flow_seen" -> Clause("C31.flow_unchanged", s.jobs[e.f] = e.jobs)
    [] e.op = "ran" ->
         LET o == s.f[e.f] jobs == s.jobs[e.f] IN
         UNION {UNION {IF Have(jobs, i, 5) = Want(o, st0) /\ <<e.f, st0>> \in DOMAIN s.val /\ ~Agree(e.values[i], s.val[<<e.f, st0>>]) THEN {"C31.result:" \o st0[1]} ELSE {} : i \in DOMAIN jobs} : st0 \in Stages(o)}
    [] OTHER -> {}
Init == c \in 1..Len(Trace) /\ l = 1 /\ st = Start
Next == /\ l <= Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l] IN Report(c, l, Fails(st, e)) /\ st' = Step(st, e)
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
