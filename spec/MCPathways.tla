----------------------------- MODULE MCPathways -----------------------------
(* The pathway solver as a two stage parallel computation: combinations of  *)
(* candidate reactions are cut into chunks, each chunk is turned into a      *)
(* matrix by one task, the matrices are cut again and balanced by further    *)
(* tasks, completing in any order and handed out in batches; the balanced    *)
(* ones are filtered. Checked: the answer is the set of solutions for every  *)
(* chunk size, batch size and order.                                         *)
EXTENDS Pathways
CONSTANTS Pool, Nets, MaxCand, MaxCombo, Chunks, Batches, Split
VARIABLES cand, net, k, chunk, batch, stage, todo, flight, mats, out
vars == <<cand, net, k, chunk, batch, stage, todo, flight, mats, out>>

\* a chemically consistent world: phases A, B (1, 2), intermediates (3, 4), products (5, 6)
PoolA == {<<-1, -1, 1, 0, 0, 0>>, <<-1, 0, 0, 1, 0, 0>>, <<0, -1, -1, 0, 1, 0>>, <<0, 0, -1, -1, 1, 1>>,
          <<0, 0, 1, -1, 0, 0>>, <<0, 0, -1, 1, 0, 0>>, <<0, -1, 0, -1, 0, 1>>, <<-1, -2, 0, 0, 1, 0>>, <<0, 1, -1, -1, 1, 0>>}
NetsA == {<<-1, -2, 0, 0, 1, 0>>, <<-2, -1, 0, 0, 1, 1>>, <<-1, -1, 0, 0, 0, 1>>}
Slices(q, n) == [i \in 1..((Len(q) + n - 1) \div n) |-> SubSeq(q, (i - 1) * n + 1, IF i * n > Len(q) THEN Len(q) ELSE i * n)]
Seq2Set(q) == {q[i] : i \in DOMAIN q}
CombosOf(n) == IF n > Len(cand) THEN <<>> ELSE SetToSeq(kSubset(n, DOMAIN cand))
NonEmpty(q) == SelectSeq(q, LAMBDA x : x # <<>>)
Covers(S) == \A j \in DOMAIN net : net[j] # 0 => \E i \in S : cand[i][j] # 0

Init == /\ \E n \in 1..MaxCand : \E S \in kSubset(n, Pool) : cand = SetToSeq(S)
        /\ net \in Nets /\ k \in 1..MaxCombo /\ chunk \in Chunks /\ batch \in Batches
        /\ stage = "build" /\ flight = {} /\ mats = [i \in 1..k |-> {}] /\ out = {}
        /\ todo = FlattenSeq([i \in 1..k |-> [j \in DOMAIN Slices(CombosOf(i), chunk) |-> <<i, Slices(CombosOf(i), chunk)[j]>>]])
Frame == UNCHANGED <<cand, net, k, chunk, batch>>
\* building: all tasks are submitted at once and complete in any order
Build == /\ stage = "build" /\ todo # <<>>
         /\ \E i \in DOMAIN todo :
              /\ mats' = [mats EXCEPT ![todo[i][1]] = @ \cup {S \in Seq2Set(todo[i][2]) : Covers(S)}]
              /\ todo' = RemoveAt(todo, i)
         /\ UNCHANGED <<stage, flight, out>> /\ Frame
Switch == /\ stage = "build" /\ todo = <<>> /\ stage' = "balance"
          /\ todo' = NonEmpty(FlattenSeq([i \in 1..k |-> IF i >= Split THEN Slices(SetToSeq(mats[i]), chunk) ELSE <<SetToSeq(mats[i])>>]))
          /\ UNCHANGED <<flight, mats, out>> /\ Frame
\* balancing: batches of tasks; a batch is collected before the next is submitted
Submit == /\ stage = "balance" /\ flight = {} /\ todo # <<>>
          /\ LET n == IF Len(todo) < batch THEN Len(todo) ELSE batch
             IN flight' = {todo[i] : i \in 1..n} /\ todo' = SubSeq(todo, n + 1, Len(todo))
          /\ UNCHANGED <<stage, mats, out>> /\ Frame
Collect == /\ stage = "balance"
           /\ \E x \in flight : out' = out \cup {S \in Seq2Set(x) : SolvesSet(cand, S, net)} /\ flight' = flight \ {x}
           /\ UNCHANGED <<stage, todo, mats>> /\ Frame
Finish == stage = "balance" /\ todo = <<>> /\ flight = {} /\ stage' = "done" /\ UNCHANGED <<todo, flight, mats, out>> /\ Frame
Next == Build \/ Switch \/ Submit \/ Collect \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Complete == stage = "done" => out = Solutions(cand, net, k)
Sound == stage = "done" => \A S \in out : LET q == Cols(cand, S) ms == Mults(q, net)
                        IN /\ Weighted(ms, [i \in DOMAIN q |-> [j \in DOMAIN net |-> RInt(q[i][j])]], Len(net)) = [j \in DOMAIN net |-> RInt(net[j])]
                           /\ \A i \in DOMAIN ms : RSign(ms[i]) = 1
\* what a solution consumes is a reactant of the net reaction or made within it
Consumes == stage = "done" => \A S \in out : \A i \in S : \A j \in DOMAIN net : cand[i][j] < 0 => net[j] < 0 \/ \E h \in S : cand[h][j] > 0
Path(S) == [i \in DOMAIN Cols(cand, S) |-> Sides(Cols(cand, S)[i])]
Pre == {j \in DOMAIN net : net[j] < 0}
RealizableIsOrdered == stage = "done" => \A S \in out : Realizable(Path(S), Pre) <=> Ordered(Path(S), Pre)
Ends == <>(stage = "done")
=============================================================================
