------------------------------ MODULE Figures ------------------------------
(* What a figure of reaction data shows. A table is a sequence of rows; a   *)
(* mark stands for one row. A pathway is a table of phase amounts over time.*)
EXTENDS Pareto, InterfaceHull
RangeOf(s) == {s[i] : i \in DOMAIN s}
Times(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in RangeOf(s) : Times(s, x) = Times(t, x)
-----------------------------------------------------------------------------
(* scatter plots: rows and marks are records [v: plotted values, lab: which *)
(* reaction, col: colour value]                                             *)
Vals(rows) == [i \in DOMAIN rows |-> rows[i].v]
\* F: numbers of the rows drawn as the front. Marks of the front have no colour value.
Drawn(rows, F) == [i \in DOMAIN rows |-> [v |-> rows[i].v, lab |-> rows[i].lab, col |-> IF i \in F THEN 0 ELSE rows[i].col, front |-> i \in F]]
\* the marks drawn are those of the rows for some front: every undominated row is in the front
\* or equal to one that is
Plain(m) == [v |-> m.v, lab |-> m.lab]
ScatterShowsRows(rows, marks) == SameBag([i \in DOMAIN rows |-> Plain(rows[i])], [i \in DOMAIN marks |-> Plain(marks[i])])
FrontVals(marks) == {marks[i].v : i \in {j \in DOMAIN marks : marks[j].front}}
UndominatedVals(rows) == {rows[i].v : i \in {j \in DOMAIN rows : \A k \in DOMAIN rows : ~Dominates(rows[k].v, rows[j].v)}}
ColoursRight(rows, marks) == \A i \in DOMAIN marks : ~marks[i].front => \E j \in DOMAIN rows : rows[j].v = marks[i].v /\ rows[j].lab = marks[i].lab /\ rows[j].col = marks[i].col
-----------------------------------------------------------------------------
(* rows whose reactants are all available, in order                         *)
Available(rows, prec) == SelectSeq([i \in DOMAIN rows |-> i], LAMBDA i : RangeOf(rows[i]) \subseteq prec)
-----------------------------------------------------------------------------
(* interface hulls: segments <<p, q>> between points <<x, y>>                *)
Left(s) == IF s[1][1] <= s[2][1] THEN s[1] ELSE s[2]
Right(s) == IF s[1][1] <= s[2][1] THEN s[2] ELSE s[1]
Upright(s) == s[1][1] = s[2][1]
OnEnvelope(V, s, t) == Upright(s) \/ (AbsI(Left(s)[2] - EnvV(V, Left(s)[1])) <= t /\ AbsI(Right(s)[2] - EnvV(V, Right(s)[1])) <= t)
\* consecutive vertices
Chain(V) == LET q == ByX(V) IN {<<q[i], q[i + 1]>> : i \in 1..(Len(q) - 1)}
Length(segs, a, b) == FoldSet(LAMBDA i, t : t + Right(segs[i])[1] - Left(segs[i])[1], 0,
                              {i \in DOMAIN segs : Left(segs[i])[1] >= a[1] /\ Right(segs[i])[1] <= b[1]})
Shown(pr) == pr[1][2] <= 0 /\ pr[2][2] <= 0 /\ (pr[1][2] < 0 \/ pr[2][2] < 0)
CoversHull(V, segs) == \A pr \in Chain(V) : Shown(pr) => Length(segs, pr[1], pr[2]) = pr[2][1] - pr[1][1]
-----------------------------------------------------------------------------
(* pathways: am[p][t] amount of phase p at time t, comp[p] its atoms        *)
Median3(a, b, c) == IF a <= b THEN (IF b <= c THEN b ELSE IF a <= c THEN c ELSE a) ELSE (IF a <= c THEN a ELSE IF b <= c THEN c ELSE b)
\* the window of three is mirrored at both ends
Smooth(s) == [t \in DOMAIN s |-> Median3(s[IF t = 1 THEN 1 ELSE t - 1], s[t], s[IF t = Len(s) THEN t ELSE t + 1])]
Curves(am, smooth) == IF smooth THEN [p \in DOMAIN am |-> Smooth(am[p])] ELSE am
SumOf(s) == FoldLeft(LAMBDA t, x : t + x, 0, s)
Atoms(cv, comp, t) == [k \in DOMAIN comp[1] |-> SumOf([p \in DOMAIN comp |-> cv[p][t] * comp[p][k]])]
\* energy of v = <<n1, n2>> decomposed into the most stable phases; ph: sequence of [v, e]
\* with e the energy per formula unit
HullOf(ph, v) ==
  LET n == Len(ph)
      par == {i \in 1..n : ph[i].v[1] * v[2] = ph[i].v[2] * v[1]}
      one(i) == Round(ph[i].e * SumOf(v), SumOf(ph[i].v))
      det(i, j) == ph[i].v[1] * ph[j].v[2] - ph[j].v[1] * ph[i].v[2]
      w(i, j) == v[1] * ph[j].v[2] - ph[j].v[1] * v[2]
      z(i, j) == ph[i].v[1] * v[2] - v[1] * ph[i].v[2]
      prs == {q \in (1..n) \X (1..n) : det(q[1], q[2]) > 0 /\ w(q[1], q[2]) >= 0 /\ z(q[1], q[2]) >= 0}
  IN Min({one(i) : i \in par} \cup {Round(w(q[1], q[2]) * ph[q[1]].e + z(q[1], q[2]) * ph[q[2]].e, det(q[1], q[2])) : q \in prs})
\* energy above the most stable state, of all atoms together
Excess(cv, comp, e, ph, t) == SumOf([p \in DOMAIN comp |-> cv[p][t] * e[p]]) - HullOf(ph, Atoms(cv, comp, t))
-----------------------------------------------------------------------------
(* networks: nodes are drawn once each, with one colour per chemical system *)
ColouredBy(keys, cols) == Len(keys) = Len(cols) /\ \A i \in DOMAIN keys, j \in DOMAIN keys : (keys[i] = keys[j]) <=> (cols[i] = cols[j])
=============================================================================
