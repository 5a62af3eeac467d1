------------------------------ MODULE MCFigures -----------------------------
(* A scatter plot is drawn in two series: a front is chosen, the rows that  *)
(* are not in it are marked one by one, then those of the front. Rows have  *)
(* labels, which repeat when tables are put together. Shown: when rows are  *)
(* told apart by position every row is marked once, whatever the front.     *)
(* With the figure goes a curve that is smoothed, and the envelope of the   *)
(* rows taken as points of an interface.                                    *)
EXTENDS Figures
CONSTANTS MaxRows, MaxVal, MaxTime, D, ByPosition
VARIABLES rows, front, todo, marks
vars == <<rows, front, todo, marks>>
Row == [v : [1..2 -> 0..MaxVal], lab : {1}, col : {1}, ix : 1..2]
Init == /\ \E n \in 0..MaxRows : rows \in [1..n -> Row]
        /\ front \in {F \in SUBSET DOMAIN rows : IsFront(Vals(rows), F)}
        /\ todo = {i \in DOMAIN rows : IF ByPosition THEN i \notin front ELSE \A j \in front : rows[j].ix # rows[i].ix}
        /\ marks = <<>>
Mark(i) == [v |-> rows[i].v, lab |-> rows[i].lab, col |-> IF i \in front THEN 0 ELSE rows[i].col, front |-> i \in front]
MarkOne == /\ todo # {} /\ Len(marks) + Cardinality(front) < Len(rows)
           /\ \E i \in todo : marks' = Append(marks, Mark(i)) /\ todo' = todo \ {i} /\ UNCHANGED <<rows, front>>
AddFront == /\ todo = {} /\ ~\E i \in DOMAIN marks : marks[i].front
            /\ front # {}
            /\ LET q == SetToSortSeq(front, <) IN marks' = marks \o [k \in DOMAIN q |-> Mark(q[k])]
            /\ UNCHANGED <<rows, front, todo>>
Next == MarkOne \/ AddFront
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == ~ENABLED Next
ShowsAll == Done => /\ ScatterShowsRows(rows, marks) /\ ColoursRight(rows, marks) /\ FrontVals(marks) = UndominatedVals(rows)
Ends == <>Done
\* smoothing
ASSUME \A n \in 1..MaxTime : \A s \in [1..n -> 0..MaxVal] : LET m == Smooth(s) lo == Min(RangeOf(s)) hi == Max(RangeOf(s)) IN
   /\ \A t \in DOMAIN s : m[t] >= lo /\ m[t] <= hi
   /\ Smooth([t \in DOMAIN s |-> s[n + 1 - t]]) = [t \in DOMAIN s |-> m[n + 1 - t]]
   /\ (\A t \in 1..(n - 1) : s[t] <= s[t + 1]) => m = s
\* the chain of vertices is the envelope, and leaving out a segment of it shows
ASSUME \A P \in {S \in SUBSET ((0..D) \X (-2..0)) : Cardinality(S) <= 3} :
   LET V == Vertices(P, D, 0) segs == SetToSeq({s \in Chain(V) : Shown(s)}) IN
   /\ CoversHull(V, segs) /\ \A i \in DOMAIN segs : OnEnvelope(V, segs[i], 0)
   /\ \A i \in DOMAIN segs : ~CoversHull(V, SubSeq(segs, 1, i - 1) \o SubSeq(segs, i + 1, Len(segs)))
\* the hull energy of a mixture is at most the energy of the mixture
ASSUME \A e \in -3..1, am \in [1..3 -> 0..2] :
   LET comp == <<<<1, 0>>, <<0, 1>>, <<1, 1>>>> ph == <<[v |-> <<1, 0>>, e |-> 0], [v |-> <<0, 1>>, e |-> 0], [v |-> <<1, 1>>, e |-> e]>>
       cv == [p \in 1..3 |-> <<am[p]>>] IN
   SumOf([p \in 1..3 |-> am[p]]) > 0 => Excess(cv, comp, <<0, 0, e>>, ph, 1) >= 0
=============================================================================
