----------------------------- MODULE MCBalance -----------------------------
(* Design model of balancing: the candidate solutions obtained by fixing one *)
(* product (then one reactant) to one, keeping the candidate with the fewest *)
(* phases on the wrong side, checked against the definition of a reaction.   *)
EXTENDS Reaction
CONSTANTS NEL, AMT, MAXR, MAXP
VARIABLES re, pr, pc, idx, best, err
vars == <<re, pr, pc, idx, best, err>>
Comps == {v \in [1..NEL -> 0..AMT] : \E e \in 1..NEL : v[e] > 0}
Seqs(k) == UNION {[1..j -> Comps] : j \in 1..k}
Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
cs == re \o pr
M == StoichMatrix(cs)
nul == Nullity(M, Len(cs))
None == 99
Init == /\ re \in {s \in Seqs(MAXR) : Distinct(s)} /\ pr \in {s \in Seqs(MAXP) : Distinct(s)}
        /\ \A i \in DOMAIN re : \A j \in DOMAIN pr : re[i] # pr[j]
        /\ pc = "try" /\ idx = 1 /\ best = <<>> /\ err = None
\* order of attempts: products first, then reactants
Att(k) == IF k <= Len(pr) THEN Len(re) + k ELSE k - Len(pr)
WantSign(i) == IF i <= Len(re) THEN -1 ELSE 1
Wrong(v) == Cardinality({i \in 1..Len(v) : RSign(v[i]) # WantSign(i)})
Cand(k) == LET v == NullVec(M, Len(cs)) i == Att(k)
           IN IF nul # 1 \/ v[i] = 0 THEN <<>>
              ELSE [j \in 1..Len(cs) |-> RDiv(RInt(v[j] * WantSign(i)), RInt(v[i]))]
Try == /\ pc = "try" /\ nul = 1
       /\ LET v == Cand(idx) IN
          IF v # <<>> /\ Wrong(v) < err
          THEN best' = v /\ err' = Wrong(v) ELSE UNCHANGED <<best, err>>
       /\ pc' = IF err' = 0 \/ idx = Len(cs) THEN "done" ELSE "try"
       /\ idx' = idx + 1 /\ UNCHANGED <<re, pr>>
Give == pc = "try" /\ nul # 1 /\ pc' = "skip" /\ UNCHANGED <<re, pr, idx, best, err>>
Next == Try \/ Give
Spec == Init /\ [][Next]_vars
Oriented == SignOrient(NullVec(M, Len(cs)), Len(re))
Complete == (pc = "done" /\ Oriented # 0) => err = 0
Sound == (pc = "done" /\ err = 0) =>
            /\ Conserved([comps |-> cs, co |-> best])
            /\ \A i \in DOMAIN best : RSign(best[i]) = WantSign(i)
Honest == (pc = "done" /\ best # <<>>) => (Conserved([comps |-> cs, co |-> best]) /\ Wrong(best) = err)
FirstAttemptDecides == (pc = "done" /\ Oriented # 0) => idx = 2
=============================================================================
