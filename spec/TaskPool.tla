------------------------------ MODULE TaskPool ------------------------------
(* A driver hands out tasks to workers and collects their results: every    *)
(* task is submitted once, runs once, after its submission, and is          *)
(* delivered once, after it ran. A log is a sequence of <<kind, task>> with *)
(* kind in {"submit", "run", "get"}; tasks complete in any order.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* phase of every task: 0 not submitted, 1 submitted, 2 ran, 3 delivered
Phase(k) == CASE k = "submit" -> 1 [] k = "run" -> 2 [] k = "get" -> 3
PoolInit(m) == [t \in 1..m |-> 0]
PoolCan(p, k, t) == p[t] = Phase(k) - 1
PoolDo(p, k, t) == [p EXCEPT ![t] = IF @ > Phase(k) THEN @ ELSE Phase(k)]
InPhase(p, n) == {t \in DOMAIN p : p[t] = n}
\* tasks of a log are numbered 1..m
PoolStep(a, x) == TLCEval([p |-> PoolDo(a.p, x[1], x[2]), err |-> IF PoolCan(a.p, x[1], x[2]) THEN a.err ELSE a.err \cup {"each_task_once:" \o x[1]}])
PoolFails(m, log) == LET r == FoldLeft(PoolStep, [p |-> PoolInit(m), err |-> {}], log)
                     IN r.err \cup (IF \A t \in DOMAIN r.p : r.p[t] = 3 THEN {} ELSE {"every_task_delivered"})
=============================================================================
