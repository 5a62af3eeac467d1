----------------------------- MODULE MCEntries -----------------------------
(* All histories of temperature changes of an entry with adjustments (the   *)
(* recorded sum of adjustments is that of the current temperature), and the *)
(* choice of entries for every small list of phases.                        *)
EXTENDS Entries
CONSTANTS Temps, MAXLEN
VARIABLES x, hist, kept
vars == <<x, hist, kept>>
Adjs == {<<>>, <<[k |-> "const", v |-> 100]>>, <<[k |-> "co2", v |-> 3]>>, <<[k |-> "deg", v |-> 2], [k |-> "const", v |-> -7]>>}
Tab == <<-1000, -900, -700, -650>>
Init == \E k \in {"gibbs", "nist", "interp"}, a \in Adjs, t \in {T \in Temps : T \in 3000..6000} :
          x = [k |-> k, m |-> 1, adj |-> a, T |-> t, tab |-> Tab, lo |-> 3000, dep |-> FALSE] /\ hist = <<t>> /\ kept = SumAdj(a, t)
Change == \E t \in Temps :
            /\ Len(hist) < MAXLEN
            /\ hist' = Append(hist, t)
            /\ IF ValidT(x, t)
               THEN x' = Convert(x, t) /\ kept' = (IF x.k = "interp" THEN kept ELSE kept - SumAdj(x.adj, x.T) + SumAdj(x.adj, t))
               ELSE UNCHANGED <<x, kept>>
Next == Change
Spec == Init /\ [][Next]_vars
\* corrections are there exactly once, at the current temperature
AppliedOnce == kept = SumAdj(x.adj, x.T)
InRange == ValidT(x, x.T)
PathIndependent == \A t1, t2 \in Temps : (ValidT(x, t1) /\ ValidT(x, t2)) => Convert(Convert(x, t1), t2) = Convert(x, t2)
BackAgain == \A t \in Temps : ValidT(x, t) => Convert(Convert(x, t), x.T) = x
InterpBetween == \A t \in 3000..6000 : LET v == Interp(Tab, 3000, t) IN v >= -1000 /\ v <= -650
\* the choice of entries
Inp == {[f |-> f, el |-> el, e |-> e, src |-> s] : f \in {1}, el \in {TRUE}, e \in {0, 1}, s \in {{}, {"nist"}}}
       \cup {[f |-> f, el |-> FALSE, e |-> 0, src |-> s] : f \in {2}, s \in {{"nist", "freed"}, {"freed"}}}
       \cup {[f |-> 3, el |-> FALSE, e |-> 1, src |-> {}]}
Consistent(inp) == \A i, j \in DOMAIN inp : inp[i].f = inp[j].f => inp[i].src = inp[j].src
Lists == {q \in [1..3 -> Inp] : Consistent(q)}
Sols(inp, o) == {K \in SUBSET DOMAIN inp : Covers(inp, o, ExpOf(inp, o), K)}
EveryPhaseCovered == \A inp \in Lists, o \in SUBSET {"nist", "freed"} :
   /\ Sols(inp, o) # {}
   /\ \A K \in Sols(inp, o) : \A i \in DOMAIN inp : (\E j \in K : inp[j].f = inp[i].f) # (\E m \in ExpOf(inp, o) : m[3] = inp[i].f)
ASSUME EveryPhaseCovered
=============================================================================
