---------------------------- MODULE TraceEntryDB ----------------------------
(* Conformance of entry queries and of the job that acquires entries (C33). *)
EXTENDS EntryDB, TraceIO
VARIABLES c, l, st
RangeOf(s) == {s[i] : i \in DOMAIN s}
GotFails(e, want) ==
  Clause("C33.all_entries_of_the_system", want \subseteq RangeOf(e.got))
  \cup Clause("C33.only_entries_of_the_system", RangeOf(e.got) \subseteq want)
  \cup Clause("C33.each_once", Len(e.got) = Cardinality(RangeOf(e.got)))
Term(t) == [k |-> t.k, id |-> t.id, els |-> RangeOf(t.els), any |-> RangeOf(t.any), c |-> t.c, n |-> t.n]
Fails(db, e) ==
  IF e.exc # "" THEN {"C33.no_exception:" \o e.exc} ELSE
  CASE e.op = "system" -> GotFails(e, EntriesFor(db, InSystem(db, RangeOf(e.els)))) \cup Clause("C33.arguments_unchanged", e.input)
    [] e.op = "search" -> GotFails(e, EntriesFor(db, Search(db, [i \in DOMAIN e.terms |-> Term(e.terms[i])])))
    \* the job: the entries of the system and those of the user, processed as asked
    [] e.op = "job" -> LET want == EntriesFor(db, InSystem(db, RangeOf(e.els))) IN
         Clause("C33.processed_as_requested", e.same)
         \cup Clause("C33.of_the_system_or_the_user", \A i \in DOMAIN e.used : e.used[i] \in want \cup RangeOf(e.custom))
         \cup Clause("C33.document", e.doc) \cup Clause("C33.arguments_unchanged", e.input)
Init == c \in 1..Len(Trace) /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l] IN
             IF e.op = "db" THEN st' = e.docs ELSE st' = st /\ Report(c, l, Fails(st, e))
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
