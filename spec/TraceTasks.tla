----------------------------- MODULE TraceTasks -----------------------------
(* Conformance of task collection and of splitting work (C32).              *)
EXTENDS Tasks, TraceIO
VARIABLES c, l
RangeOf(s) == {s[i] : i \in DOMAIN s}
\* task t returns value of t (e.vals[t]); fail: numbers of the tasks that raise
CollectFails(e) ==
  LET raised == e.exc # "" pf == PoolFails(e.ntasks, e.log)
      stopped == e.stop >= 0 /\ e.stop < e.n IN
  Clause("C32.error_of_a_task_is_raised", raised <=> (RangeOf(e.fail) # {} /\ (~stopped \/ raised)))
  \cup Clause("C32.only_errors_of_tasks", raised => e.exc = "TaskError")
  \cup Clause("C32.one_task_each", e.ntasks = e.n)
  \cup {"C32." \o x : x \in pf \ (IF raised \/ stopped THEN {"every_task_delivered"} ELSE {})}
  \cup Clause("C32.every_result_once", IF raised THEN Len(e.got) < e.n ELSE Len(e.got) = IF stopped THEN e.stop ELSE e.n)
  \cup Clause("C32.results_are_those_of_the_tasks", \A i \in DOMAIN e.got : e.got[i][1] \in 1..e.n /\ e.got[i][1] \notin RangeOf(e.fail) /\ e.got[i][2] = e.vals[e.got[i][1]])
  \cup Clause("C32.none_twice", \A i, j \in DOMAIN e.got : e.got[i][1] = e.got[j][1] => i = j)
  \cup Clause("C32.arguments_unchanged", e.input)
GroupFails(e) ==
  IF e.exc # "" THEN {"C32.no_exception:" \o e.exc} ELSE
  Clause("C32.groups", e.got = Groups(e.items, e.size, e.fill)) \cup Clause("C32.arguments_unchanged", e.input)
PowersetFails(e) ==
  IF e.exc # "" THEN {"C32.no_exception:" \o e.exc} ELSE
  Clause("C32.every_subset", RangeOf(e.got) = Smaller(e.n, e.max))
  \cup Clause("C32.every_subset_once", Len(e.got) = CountUpTo(e.n, e.max))
  \cup Clause("C32.small_subsets_first", \A i \in 1..(Len(e.got) - 1) : Len(e.got[i]) <= Len(e.got[i + 1]))
Starts(e) == \* a cluster is started unless there is one; an existing one is looked for in batch jobs
  Clause("C32.one_cluster", e.calls = IF e.running THEN <<>> ELSE <<IF e.batch THEN "auto" ELSE "own">>)
  \cup Clause("C32.no_exception:" \o e.exc, e.exc = "")
Fails(e) == CASE e.op = "collect" -> CollectFails(e) [] e.op = "group" -> GroupFails(e) [] e.op = "powerset" -> PowersetFails(e) [] e.op = "start" -> Starts(e)
Init == c \in 1..Len(Trace) /\ l = 1
Next == /\ l <= Len(Trace[c].ev) /\ Report(c, l, Fails(Trace[c].ev[l])) /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
