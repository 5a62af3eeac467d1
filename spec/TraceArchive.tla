---------------------------- MODULE TraceArchive ----------------------------
(* Conformance of retrieving stored results (C35).                          *)
(* store: a result [t, o, m, w, at, rx: <<<<tag, kind>>>>] in the log, where*)
(*  kind identifies the reaction as it was stored; remove: of position i;   *)
(* ask: a question and what it was answered with (found, the reactions, the *)
(*  open element and chemical potential of the set and of every reaction).  *)
EXTENDS Archive, TraceIO
VARIABLES c, l, st
Bag(s) == [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
AskFails(log, e) ==
  LET k == Answer(log, e) IN
  IF k = 0 THEN Clause("C35.nothing_stored_is_an_error", ~e.found) ELSE
  IF ~e.found THEN {"C35.stored_result_found:" \o e.exc} ELSE
  Clause("C35.only_these_conditions", \E i \in Candidates(log, e) : Bag(log[i].rx) = Bag(e.rx))
  \cup Clause("C35.latest_result", Bag(log[k].rx) = Bag(e.rx))
  \cup Clause("C35.conditions_of_the_set", e.so = e.o /\ (e.o # 0 => e.sm = e.m))
  \cup Clause("C35.conditions_of_every_reaction", \A i \in DOMAIN e.cond : e.cond[i] = (IF e.o = 0 THEN <<0, 0>> ELSE <<e.o, e.m>>))
  \cup Clause("C35.reactions_and_their_data", e.same)
  \cup Clause("C35.archive_unchanged", e.kept)
Apply(s, e) ==
  CASE e.op = "store" -> [st |-> Append(s, e), fails |-> Clause("C35.result_stored:" \o e.exc, e.exc = "")]
    [] e.op = "remove" -> [st |-> SubSeq(s, 1, e.i - 1) \o SubSeq(s, e.i + 1, Len(s)), fails |-> {}]
    [] e.op = "ask" -> [st |-> s, fails |-> AskFails(s, e)]
Init == c \in 1..Len(Trace) /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace[c].ev)
        /\ LET r == Apply(st, Trace[c].ev[l]) IN st' = r.st /\ Report(c, l, r.fails)
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
