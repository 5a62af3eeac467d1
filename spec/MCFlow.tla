------------------------------- MODULE MCFlow -------------------------------
(* Makers, flows built from them, and a scheduler that runs any stage whose *)
(* inputs are there. Flow.tla has to give a workflow that always finishes,  *)
(* whose results do not depend on the order and not on what is done with    *)
(* the maker afterwards (Shared: flows refer to the options of the maker).  *)
EXTENDS Flow
CONSTANTS MaxFlows, MaxMus, Shared
VARIABLES opt, flows
vars == <<opt, flows>>
Mus == UNION {[1..n -> {"-1", "-2"}] : n \in 0..MaxMus}
Options == [given : {"", "e"}, basic : BOOLEAN, mini : BOOLEAN, solver : BOOLEAN, open : {"", "O"}, mus : Mus]
Opts(f) == IF Shared THEN [opt EXCEPT !.given = flows[f].o.given] ELSE flows[f].o
Init == opt \in Options /\ flows = <<>>
Build == Len(flows) < MaxFlows /\ flows' = Append(flows, [o |-> opt, val |-> <<>>]) /\ UNCHANGED opt
Change == flows # <<>> /\ opt' \in {x \in Options : Cardinality({k \in DOMAIN x : x[k] # opt[k]}) = 1} /\ UNCHANGED flows
Ready(f, s) == s \notin DOMAIN flows[f].val /\ \A n \in Needs(Opts(f), s) : n[2] \in DOMAIN flows[f].val
Run(f, s) == /\ s \in Stages(Opts(f)) /\ Ready(f, s)
             /\ LET v == [kind |-> s[1], at |-> At(Opts(f), s), enums |-> Enumerators(Opts(f), s), needs |-> {<<n[1], flows[f].val[n[2]]>> : n \in Needs(Opts(f), s)}]
                IN flows' = [flows EXCEPT ![f].val = [t \in DOMAIN @ \cup {s} |-> IF t = s THEN v ELSE @[t]]]
             /\ UNCHANGED opt
Next == Build \/ Change \/ \E f \in 1..Len(flows) : \E s \in Stages(Opts(f)) : Run(f, s)
Spec == Init /\ [][Next]_vars
Complete(f) == DOMAIN flows[f].val = Stages(flows[f].o)
NeverStuck == \A f \in 1..Len(flows) : Complete(f) \/ \E s \in Stages(flows[f].o) : Ready(f, s)
NeedsExist == \A f \in 1..Len(flows) : LET o == flows[f].o IN \A s \in Stages(o) : \A n \in Needs(o, s) : n[2] \in Stages(o)
Confluent == \A f \in 1..Len(flows) : \A s \in DOMAIN flows[f].val : flows[f].val[s] = Value(flows[f].o, s)
RECURSIVE Used(_)
Used(v) == v.enums \cup UNION {Used(n[2]) : n \in v.needs}
(* reactions found at one chemical potential are not used at another        *)
OwnConditions == \A f \in 1..Len(flows) : \A s \in DOMAIN flows[f].val :
   \A e \in Used(flows[f].val[s]) : e[3] # "" => s[2] > 0 /\ e[3] = flows[f].o.mus[s[2]]
(* every enumerator asked for is used by every network                      *)
AllUsed == \A f \in 1..Len(flows) : LET o == flows[f].o IN \A s \in DOMAIN flows[f].val :
   s[1] \in {"net", "solve"} => Used(flows[f].val[s]) = Enumerators(o, <<"enum", 0>>) \cup Enumerators(o, <<"enum", s[2]>>)
=============================================================================
