--------------------------- MODULE MCCompetition ---------------------------
(* Scoring the reactions to a target in parallel: first the reactions that  *)
(* compete with none of them are dropped, then chunks of target reactions   *)
(* are handed to tasks that finish in any order and are collected as they   *)
(* finish. Every reaction ends up scored once, against all that compete.    *)
EXTENDS Competition, TLC
CONSTANTS NF, NR, MaxChunk
VARIABLES w, kept, chunks, done, result, chunk, phase
vars == <<w, kept, chunks, done, result, chunk, phase>>
F == 1..NF
Sides == {<<a>> : a \in F} \cup {<<a, b>> : a \in F, b \in F}
Rxns == {[R |-> a, P |-> <<b>>] : a \in {s \in Sides : Len(s) = 1 \/ s[1] < s[2]}, b \in F}
Init == /\ \E r \in [1..NR -> Rxns], o \in {0, 1}, t \in 2..NF : w = [rxns |-> r, open |-> o, target |-> t]
        /\ chunk \in 1..MaxChunk /\ kept = {} /\ chunks = <<>> /\ done = {} /\ result = <<>> /\ phase = "filter"
Reactants == UNION {RangeOf(w.rxns[i].R) : i \in Target(w)} \cup (IF w.open = 0 THEN {} ELSE {w.open})
Filter == /\ phase = "filter" /\ phase' = IF Target(w) = {} THEN "error" ELSE "submit"
          /\ kept' = {r \in DOMAIN w.rxns : RangeOf(w.rxns[r].R) \subseteq Reactants}
          /\ UNCHANGED <<w, chunks, done, result, chunk>>
Assigned == UNION {chunks[k] : k \in DOMAIN chunks}
Submit == /\ phase = "submit"
          /\ LET left == Target(w) \ Assigned IN
             IF left = {} THEN phase' = "collect" /\ UNCHANGED chunks
             ELSE phase' = phase /\ \E S \in SUBSET left : (Cardinality(S) = chunk \/ (S = left /\ Cardinality(S) < chunk)) /\ chunks' = Append(chunks, S)
          /\ UNCHANGED <<w, kept, done, result, chunk>>
\* what a task computes for a reaction from the reactions it was given
Against(i) == {r \in kept : RangeOf(w.rxns[r].R) \subseteq Pre(w, i) \cup {w.open}}
Run == /\ phase \in {"submit", "collect"} /\ \E k \in DOMAIN chunks \ done :
            /\ done' = done \cup {k}
            /\ \E q \in [1..Cardinality(chunks[k]) -> chunks[k]] : /\ RangeOf(q) = chunks[k]
                  /\ result' = result \o [j \in DOMAIN q |-> <<q[j], Against(q[j])>>]
       /\ UNCHANGED <<w, kept, chunks, chunk, phase>>
Finish == phase = "collect" /\ done = DOMAIN chunks /\ phase' = "done" /\ UNCHANGED <<w, kept, chunks, done, result, chunk>>
Next == Filter \/ Submit \/ Run \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* whatever the chunks and their order: all target reactions, once, against all that compete
Alone == \A j \in DOMAIN result : result[j][2] = Competing(w, result[j][1])
Once == \A j \in DOMAIN result, k \in DOMAIN result : result[j][1] = result[k][1] => j = k
OnlyTargets == \A j \in DOMAIN result : result[j][1] \in Target(w)
Complete == phase = "done" => {result[j][1] : j \in DOMAIN result} = Target(w)
Itself == \A j \in DOMAIN result : result[j][1] \in result[j][2]
Reported == phase = "error" => Target(w) = {}
Ends == <>(phase \in {"done", "error"})
=============================================================================
