---------------------------- MODULE Competition ----------------------------
(* Which reactions are scored for a target, and against which others. A     *)
(* world w has rxns (sequence of records with R: sequence of the formulas   *)
(* of the reactants, P: of the products), the formula of the open element   *)
(* (0: none) and the target formula.                                        *)
EXTENDS Integers, Sequences, FiniteSets
RangeOf(s) == {s[i] : i \in DOMAIN s}
Pre(w, i) == RangeOf(w.rxns[i].R) \ {w.open}
Target(w) == {i \in DOMAIN w.rxns : w.target \in RangeOf(w.rxns[i].P)}
\* what can happen with the precursors of reaction i: reactions of them and of the open element
Competing(w, i) == {r \in DOMAIN w.rxns : RangeOf(w.rxns[r].R) \subseteq Pre(w, i) \cup {w.open}}
=============================================================================
