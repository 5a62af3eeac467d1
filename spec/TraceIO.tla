------------------------------ MODULE TraceIO ------------------------------
(* Reading recorded cases and reporting verdicts. One line of the trace     *)
(* file is one case: a record whose field ev is the sequence of recorded    *)
(* events. A verdict never blocks: it is a set of names of violated clauses,*)
(* printed as  @@FAIL <case> <event> <clause>, and the run is accepted only *)
(* if every event of every case was consumed (checked by the driver from    *)
(* the number of distinct states).                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(c, l, fails) ==
  IF fails = {} THEN TRUE
  ELSE \A f \in fails : PrintT("@@FAIL " \o ToString(c) \o " " \o ToString(l) \o " " \o f)

\* set of the names whose condition is false
Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
