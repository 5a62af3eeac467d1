------------------------------- MODULE MCYen -------------------------------
(* Yen's search, one accepted path per step, on every directed graph over N *)
(* nodes with costs in Costs: its answer is what KspFails demands.          *)
EXTENDS Paths
CONSTANTS N, Costs, K
CostDef == {-1, 0, 1, 2}
CostDefDeep == {-1, 1}
VARIABLES w, A, B, k, done
vars == <<w, A, B, k, done>>
\* arcs that can matter: none into the start (1), none out of the end (N)
Arcs == {a \in (1..N) \X (1..N) : a[1] # a[2] /\ a[2] # 1 /\ a[1] # N}
Init == \E f \in [Arcs -> Costs] :
          /\ w = [u \in 1..N |-> [v \in 1..N |-> IF <<u, v>> \in Arcs THEN f[<<u, v>>] ELSE -1]]
          /\ B = {} /\ k = 1 /\ done = FALSE /\ A = <<>>
First == /\ A = <<>> /\ ~done
         /\ LET F == Cheapest(w, 1, N, {}, {}) IN
              IF F = {} THEN A' = A /\ done' = TRUE ELSE \E p \in F : A' = <<p>> /\ done' = FALSE
         /\ UNCHANGED <<w, B, k>>
\* spur paths of the last accepted path, each deviating at position i
Spur(i) == LET prev == A[Len(A)] root == SubSeq(prev, 1, i)
               offE == {<<A[j][i], A[j][i + 1]>> : j \in {j \in DOMAIN A : Len(A[j]) > i /\ SubSeq(A[j], 1, i) = root}}
               S == Cheapest(w, prev[i], N, {prev[j] : j \in 1..(i - 1)}, offE)
           IN {SubSeq(prev, 1, i - 1) \o p : p \in S}
Step == /\ A # <<>> /\ ~done /\ Len(A) < K
        /\ LET prev == A[Len(A)]
               new == UNION {LET S == Spur(i) IN IF S = {} THEN {} ELSE {CHOOSE p \in S : TRUE} : i \in 1..(Len(prev) - 1)}
               C == TLCEval((B \cup new) \ {A[j] : j \in DOMAIN A})
               M == {p \in C : \A r \in C : PathCost(w, p) <= PathCost(w, r)}
           IN IF C = {} THEN done' = TRUE /\ UNCHANGED <<A, B>>
              ELSE \E p \in M : A' = Append(A, p) /\ B' = C \ {p} /\ done' = FALSE
        /\ UNCHANGED <<w, k>>
Next == First \/ Step
Spec == Init /\ [][Next]_vars
Right == (done \/ Len(A) = K) => KspFails(w, 1, N, K, A, AllPaths(w, 1, N)) = {}
Prefix == A # <<>> => KspFails(w, 1, N, Len(A), A, AllPaths(w, 1, N)) = {}
=============================================================================
