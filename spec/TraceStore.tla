----------------------------- MODULE TraceStore -----------------------------
(* Conformance of saving and loading (C30). Slots hold objects, documents   *)
(* hold what they were saved to; answers are learned from the first object  *)
(* with a value, every other object with the value has to give them too.    *)
EXTENDS Store, TraceIO
VARIABLES c, l, st
None == <<>>
Start == [obj |-> <<>>, doc |-> <<>>, digest |-> <<>>, said |-> <<>>]
Step(s, e) ==
  CASE e.op = "new" -> [s EXCEPT !.obj = Put(@, e.s, Born(e.k))]
    [] e.op = "save" -> IF e.exc # "" THEN s ELSE [s EXCEPT !.doc = Put(@, e.d, s.obj[e.s]), !.digest = Put(@, e.d, e.digest)]
    [] e.op = "load" -> IF e.exc # "" THEN s ELSE [s EXCEPT !.obj = Put(@, e.s, s.doc[e.d])]
    [] e.op = "change" -> [s EXCEPT !.obj = Put(@, e.s, Done(s.obj[e.s], <<e.how, e.exc>>))]
    [] e.op = "ask" -> IF s.obj[e.s] \in DOMAIN s.said THEN s ELSE [s EXCEPT !.said = Put(@, s.obj[e.s], e.a)]
    [] OTHER -> s
Learned(s, e) == s.said[s.obj[e.s]]
Fails(s, e) ==
  CASE e.op = "save" -> IF e.exc # "" THEN {"C30.no_exception:save:" \o e.kind \o ":" \o e.exc} ELSE {}
    [] e.op = "load" -> IF e.exc # "" THEN {"C30.no_exception:load:" \o e.kind \o ":" \o e.exc} ELSE {}
    [] e.op = "ask" ->
         IF s.obj[e.s] \notin DOMAIN s.said THEN {}
         ELSE LET w == Learned(s, e) IN
              IF Len(w) # Len(e.a) THEN {"C30.same_answers:" \o e.kind}
              ELSE UNION {IF w[i] = e.a[i] THEN {} ELSE {"C30.same_answer:" \o e.kind \o ":" \o e.a[i][1]} : i \in DOMAIN w}
    [] e.op = "doc" -> Clause("C30.document_unchanged:" \o e.kind, s.digest[e.d] = e.digest)
    [] e.op = "equal" -> Clause("C30.equal:" \o e.kind, s.obj[e.s] = s.obj[e.t] => e.got)
    [] OTHER -> {}
Init == c \in 1..Len(Trace) /\ l = 1 /\ st = Start
Next == /\ l <= Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l] IN Report(c, l, Fails(st, e)) /\ st' = Step(st, e)
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
