------------------------------- MODULE Pareto -------------------------------
(* The Pareto front of a table: rows are sequences of metric values, smaller *)
(* is better.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
LeqRow(a, b) == \A k \in DOMAIN a : a[k] <= b[k]
Dominates(a, b) == LeqRow(a, b) /\ \E k \in DOMAIN a : a[k] < b[k]
Negated(rows) == [i \in DOMAIN rows |-> [k \in DOMAIN rows[i] |-> -rows[i][k]]]
\* F (a set of row numbers) is a front of the table
Undominated(rows, F) == \A i \in F, j \in DOMAIN rows : ~Dominates(rows[j], rows[i])
Covered(rows, F) == \A i \in DOMAIN rows \ F : \E j \in F : LeqRow(rows[j], rows[i])
IsFront(rows, F) == F \subseteq DOMAIN rows /\ Undominated(rows, F) /\ Covered(rows, F)
=============================================================================
