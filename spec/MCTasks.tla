------------------------------ MODULE MCTasks ------------------------------
(* A collector waits for any unfinished task of its list, takes it off the  *)
(* list and delivers its result; the user may stop listening. For all       *)
(* completion orders; and the facts about groups the checks rely on.        *)
EXTENDS Tasks
CONSTANTS N, MaxLen
VARIABLES pool, waiting, out, log, stopped
vars == <<pool, waiting, out, log, stopped>>
Init == pool = PoolInit(N) /\ waiting = 1..N /\ out = <<>> /\ log = <<>> /\ stopped = FALSE
Do(k, t) == PoolCan(pool, k, t) /\ pool' = PoolDo(pool, k, t) /\ log' = Append(log, <<k, t>>)
Submit == \E t \in 1..N : Do("submit", t) /\ UNCHANGED <<waiting, out, stopped>>
Run == \E t \in 1..N : Do("run", t) /\ UNCHANGED <<waiting, out, stopped>>
Collecting == InPhase(pool, 0) = {} /\ ~stopped
Get == Collecting /\ \E t \in waiting : Do("get", t) /\ waiting' = waiting \ {t} /\ out' = Append(out, t) /\ UNCHANGED stopped
Stop == Collecting /\ stopped' = TRUE /\ UNCHANGED <<pool, waiting, out, log>>
Next == Submit \/ Run \/ Get \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Submit \/ Run) /\ WF_vars(Get)
NoneTwice == \A i, j \in DOMAIN out : out[i] = out[j] => i = j
OnlyFinished == \A i \in DOMAIN out : pool[out[i]] = 3
Partition == {out[i] : i \in DOMAIN out} \cup waiting = 1..N /\ {out[i] : i \in DOMAIN out} \cap waiting = {}
LogConforms == (PoolFails(N, log) \subseteq {"every_task_delivered"}) /\ (waiting = {} => PoolFails(N, log) = {})
AllDelivered == <>(stopped \/ waiting = {})
Line(n) == [i \in 1..n |-> i]
ASSUME \A n \in 0..MaxLen, g \in 1..(MaxLen + 1) :
  LET G == Groups(Line(n), g, 0) IN
    /\ SelectSeq(Flat(G), LAMBDA x : x # 0) = Line(n)
    /\ \A k \in DOMAIN G : Len(G[k]) = g /\ G[k][1] # 0
    /\ Len(G) = (n + g - 1) \div g
    /\ \A k \in 1..(Len(G) - 1) : \A i \in 1..g : G[k][i] # 0
ASSUME \A n \in 0..6, m \in 0..7 : Cardinality(Smaller(n, m)) = CountUpTo(n, m)
=============================================================================
