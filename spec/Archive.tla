------------------------------ MODULE Archive ------------------------------
(* Stored results of synthesis planning. A result is kept under its target, *)
(* open element (0: none), chemical potential, and the workflow it was part *)
(* of (0: none); it was completed at a time of its own. A question names    *)
(* the conditions (and maybe the workflow, w = 0: any) and is answered by   *)
(* the latest result for exactly these conditions.                          *)
EXTENDS Integers, Sequences, FiniteSets
Meets(r, q) == r.t = q.t /\ r.o = q.o /\ r.m = q.m /\ (q.w = 0 \/ r.w = q.w)
Candidates(log, q) == {i \in DOMAIN log : Meets(log[i], q)}
\* position of the answer in the log, 0 when there is none
Answer(log, q) == IF Candidates(log, q) = {} THEN 0
                  ELSE CHOOSE i \in Candidates(log, q) : \A j \in Candidates(log, q) : log[j].at <= log[i].at
=============================================================================
