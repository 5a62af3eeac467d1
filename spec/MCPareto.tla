------------------------------ MODULE MCPareto ------------------------------
(* The front is found by elimination: take the next row that is left, drop  *)
(* every other row that is nowhere better than it, go on behind it. Shown   *)
(* to end with a front for every table, whatever the order of its rows.     *)
EXTENDS Pareto
CONSTANTS MaxRows, Width, MaxVal
VARIABLES rows, left, next
vars == <<rows, left, next>>
Init == /\ \E n \in 0..MaxRows : rows \in [1..n -> [1..Width -> 0..MaxVal]]
        /\ left = [i \in DOMAIN rows |-> i] /\ next = 1
Keeps(i) == \E k \in 1..Width : rows[left[i]][k] < rows[left[next]][k]
Step == /\ next <= Len(left)
        /\ LET stay == {i \in DOMAIN left : i = next \/ Keeps(i)}
               seq == SetToSortSeq(stay, <) IN
           /\ left' = [i \in DOMAIN seq |-> left[seq[i]]]
           /\ next' = Cardinality({i \in stay : i < next}) + 2
        /\ UNCHANGED rows
\* the position behind the row just taken: rows kept before it, itself, and one
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Kept == {left[i] : i \in DOMAIN left}
Done == next > Len(left)
IsAFront == Done => IsFront(rows, Kept)
SoundSoFar == Covered(rows, Kept)
OneOfEquals == Done => \A i \in Kept, j \in Kept : rows[i] = rows[j] => i = j
Ends == <>Done
=============================================================================
