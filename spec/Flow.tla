-------------------------------- MODULE Flow --------------------------------
(* The workflow for finding pathways. Options: whether entries are given,   *)
(* which enumerators are used, the open element and its chemical potentials,*)
(* and whether pathways are balanced. A stage is <<kind, branch>>: branch 0 *)
(* is the closed system, branch b > 0 the system open to the element at the *)
(* b-th chemical potential.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Branches(o) == IF o.mini /\ o.open # "" THEN 0..Len(o.mus) ELSE {0}
Stages(o) == (IF o.given # "" THEN {} ELSE {<<"entries", 0>>})
             \cup {<<k, b>> : k \in {"enum", "net"} \cup (IF o.solver THEN {"solve"} ELSE {}), b \in Branches(o)}
(* what a stage consumes: <<argument and output, stage>>                    *)
Needs(o, s) ==
  CASE s[1] = "entries" -> {}
    [] s[1] = "enum" -> IF o.given # "" THEN {} ELSE {<<"entries:entries", <<"entries", 0>>>>}
    [] s[1] = "net" -> {<<"rxn_sets:rxns", <<"enum", 0>>>>, <<"rxn_sets:rxns", <<"enum", s[2]>>>>}
    [] s[1] = "solve" -> {<<"pathways:paths", <<"net", s[2]>>>>, <<"entries:network.entries", <<"net", s[2]>>>>}
(* the enumerators of an enumeration stage: <<class, open element, its chemical potential>> *)
Enumerators(o, s) ==
  IF s[1] # "enum" THEN {}
  ELSE IF s[2] > 0 THEN {<<"MinimizeGrandPotentialEnumerator", o.open, o.mus[s[2]]>>}
  ELSE (IF o.basic THEN {<<"BasicEnumerator", "", "">>} \cup (IF o.open # "" THEN {<<"BasicOpenEnumerator", o.open, "">>} ELSE {}) ELSE {})
       \cup (IF o.mini THEN {<<"MinimizeGibbsEnumerator", "", "">>} ELSE {})
(* the conditions of networks and solvers                                   *)
At(o, s) == IF s[1] \in {"net", "solve"} /\ s[2] > 0 THEN <<o.open, o.mus[s[2]]>> ELSE <<"", "0">>
RECURSIVE Value(_, _)
Value(o, s) == [kind |-> s[1], at |-> At(o, s), enums |-> Enumerators(o, s), needs |-> {<<n[1], Value(o, n[2])>> : n \in Needs(o, s)}]
=============================================================================
