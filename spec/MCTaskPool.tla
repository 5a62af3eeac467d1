----------------------------- MODULE MCTaskPool -----------------------------
(* All schedules of a driver that cuts N units of work into chunks, submits *)
(* at most LIM chunks at a time, and collects results in completion order.  *)
EXTENDS TaskPool
CONSTANTS N
VARIABLES ch, lim, nxt, work, pool, out, log
vars == <<ch, lim, nxt, work, pool, out, log>>
Least(a, b) == IF a < b THEN a ELSE b
Init == /\ ch \in 1..(N + 1) /\ lim \in 1..3
        /\ nxt = 1 /\ work = <<>> /\ pool = PoolInit(N) /\ out = <<>> /\ log = <<>>
InFlight == InPhase(pool, 1) \cup InPhase(pool, 2)
Step(k, t) == PoolCan(pool, k, t) /\ pool' = PoolDo(pool, k, t) /\ log' = Append(log, <<k, t>>)
Submit == /\ nxt <= N /\ Cardinality(InFlight) < lim
          /\ LET hi == Least(N, nxt + ch - 1) IN work' = Append(work, [i \in 1..(hi - nxt + 1) |-> nxt + i - 1]) /\ nxt' = hi + 1
          /\ Step("submit", Len(work) + 1) /\ UNCHANGED <<ch, lim, out>>
Run(t) == Step("run", t) /\ UNCHANGED <<ch, lim, nxt, work, out>>
Get(t) == Step("get", t) /\ out' = out \o work[t] /\ UNCHANGED <<ch, lim, nxt, work>>
Next == Submit \/ \E t \in 1..Len(work) : Run(t) \/ Get(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == <<ch, lim, nxt, work, pool, out>>

Elems(s) == {s[i] : i \in DOMAIN s}
\* every unit is in exactly one place: not yet submitted, in a task, or collected
Conserved == /\ \A i, j \in DOMAIN work : i # j => Elems(work[i]) \cap Elems(work[j]) = {}
             /\ UNION {Elems(work[i]) : i \in DOMAIN work} = 1..(nxt - 1)
             /\ Elems(out) = UNION {Elems(work[i]) : i \in InPhase(pool, 3)}
             /\ Len(out) = Cardinality(Elems(out))
Limit == Cardinality(InFlight) <= lim
Done == nxt > N /\ InFlight = {}
CompleteAtEnd == Done => Elems(out) = 1..N /\ PoolFails(Len(work), log) = {}
NeverStuck == ~Done => ENABLED Next
Terminates == <>Done
\* deliberately faulty pools are rejected by the log monitor
ASSUME PoolFails(1, <<<<"submit", 1>>, <<"run", 1>>>>) = {"every_task_delivered"}
ASSUME PoolFails(1, <<<<"submit", 1>>, <<"run", 1>>, <<"get", 1>>, <<"get", 1>>>>) = {"each_task_once:get"}
ASSUME PoolFails(2, <<<<"submit", 1>>, <<"submit", 2>>, <<"run", 2>>, <<"get", 2>>>>) = {"every_task_delivered"}
=============================================================================
