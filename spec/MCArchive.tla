----------------------------- MODULE MCArchive -----------------------------
(* Results arrive in any order (a job may be stored long after a later one),*)
(* are stored again with a newer version, or are removed, and are asked for *)
(* in between.                                                              *)
EXTENDS Archive, TLC
CONSTANTS NT, NO, NM, NW, MaxLog
VARIABLES log, now
vars == <<log, now>>
Qs == [t : 1..NT, o : 0..NO, m : 0..NM, w : 0..NW]
Rs == [t : 1..NT, o : 0..NO, m : 0..NM, w : 0..NW, at : 1..(MaxLog + 1)]
Times == {log[i].at : i \in DOMAIN log}
Init == log = <<>> /\ now = [q \in Qs |-> 0]
Ask == now' = [q \in Qs |-> LET k == Answer(log', q) IN IF k = 0 THEN 0 ELSE log'[k].at]
Store == \E r \in Rs : Len(log) < MaxLog /\ r.at \notin Times /\ log' = Append(log, r) /\ Ask
Remove == \E i \in DOMAIN log : log' = SubSeq(log, 1, i - 1) \o SubSeq(log, i + 1, Len(log)) /\ Ask
Next == Store \/ Remove
Spec == Init /\ [][Next]_vars
At(k) == CHOOSE i \in DOMAIN log : log[i].at = k
Matches == \A q \in Qs : now[q] # 0 => Meets(log[At(now[q])], q)
FoundIfStored == \A q \in Qs : (now[q] = 0) = (\A i \in DOMAIN log : ~Meets(log[i], q))
Latest == \A q \in Qs, i \in DOMAIN log : Meets(log[i], q) => log[i].at <= now[q]
\* any workflow: the latest over the workflows and the results outside of any
AnyWorkflow == \A q \in Qs : q.w = 0 => \A w \in 1..NW : now[[q EXCEPT !.w = w]] <= now[q]
\* results under other conditions have no influence, however recent
Apart == [][\A q \in Qs : (Len(log') > Len(log) /\ ~Meets(log'[Len(log')], q)) => now'[q] = now[q]]_vars
\* the order in which results are stored has no influence
OrderFree == \A q \in Qs : LET n == Len(log) rev == [i \in 1..n |-> log[n + 1 - i]] k == Answer(rev, q) IN now[q] = IF k = 0 THEN 0 ELSE rev[k].at
=============================================================================
