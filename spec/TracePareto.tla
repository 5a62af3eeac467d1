---------------------------- MODULE TracePareto ----------------------------
(* Conformance of Pareto fronts (C28). rows holds the values of the metrics *)
(* in the order they were asked for, as integers: only their order matters. *)
EXTENDS Pareto, TraceIO
VARIABLES c, l
RangeOf(s) == {s[i] : i \in DOMAIN s}
FrontFails(e) ==
  IF e.exc # "" THEN {"C28.no_exception:" \o e.exc} ELSE
  LET R == IF e.max THEN Negated(e.rows) ELSE e.rows F == RangeOf(e.got) IN
  Clause("C28.rows_of_the_table", F \subseteq DOMAIN R /\ e.same)
  \cup Clause("C28.each_row_once_in_order", \A i \in DOMAIN e.got, j \in DOMAIN e.got : i < j => e.got[i] < e.got[j])
  \cup (IF F \subseteq DOMAIN R THEN Clause("C28.none_dominated", Undominated(R, F)) \cup Clause("C28.left_out_are_covered", Covered(R, F)) ELSE {})
  \cup Clause("C28.table_unchanged", e.input)
\* the same table with its rows in another order has the same front
AgainFails(a, b) == Clause("C28.independent_of_row_order", {a.rows[i] : i \in RangeOf(a.got)} = {b.rows[i] : i \in RangeOf(b.got)})
Fails(s, k) == FrontFails(s[k]) \cup (IF k > 1 /\ s[k].again /\ s[k].exc = "" /\ s[k - 1].exc = "" THEN AgainFails(s[k - 1], s[k]) ELSE {})
Init == c \in 1..Len(Trace) /\ l = 1
Next == /\ l <= Len(Trace[c].ev) /\ Report(c, l, Fails(Trace[c].ev, l)) /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
