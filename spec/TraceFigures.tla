---------------------------- MODULE TraceFigures ----------------------------
(* Conformance of figures and pathway curves (C36).                         *)
EXTENDS Figures, TraceIO
VARIABLES c, l
ScatterFails(e) ==
  Clause("C36.every_row_marked_once", ScatterShowsRows(e.rows, e.marks))
  \cup Clause("C36.front_marked", IF ~e.pareto THEN \A i \in DOMAIN e.marks : ~e.marks[i].front ELSE FrontVals(e.marks) = UndominatedVals(e.rows))
  \cup Clause("C36.colours", e.hascol => ColoursRight(e.rows, e.marks))
  \cup Clause("C36.table_unchanged", e.same)
FilterFails(e) ==
  Clause("C36.available_rows", e.out = Available(e.rows, RangeOf(e.prec)))
  \cup Clause("C36.rows_as_given", e.equal) \cup Clause("C36.table_unchanged", e.same)
PtIn(pts, p) == \E q \in RangeOf(pts) : q[1] = p[1] /\ AbsI(q[2] - p[2]) <= 1
HullFails(e) ==
  LET P == RangeOf(e.pts) IN
  Clause("C36.every_reaction_marked_once", SameBag(e.pts, e.marks) /\ SameBag(e.labs, e.mlabs))
  \cup Clause("C36.segments_join_marks", \A i \in DOMAIN e.segs : PtIn(e.pts, e.segs[i][1]) /\ PtIn(e.pts, e.segs[i][2]))
  \cup Clause("C36.segments_on_envelope", LET V == Vertices(P, e.D, 0) IN \A i \in DOMAIN e.segs : OnEnvelope(V, e.segs[i], 3))
  \cup Clause("C36.envelope_drawn", CoversHull(Vertices(P, e.D, 2), e.segs))
  \cup Clause("C36.marks_in_view", Len(e.range) = 2 /\ (\A p \in P : e.range[1] <= p[2]) /\ e.range[2] = e.ymax)
  \cup Clause("C36.hull_unchanged", e.same)
PathFails(e) ==
  LET cv == Curves(e.am, e.smooth) T == 1..Len(e.temps) IN
  Clause("C36.curves", e.df = cv) \cup Clause("C36.curves_drawn", e.drawn = cv /\ e.xs = e.temps)
  \cup Clause("C36.atoms", \A t \in T : e.atoms[t] = Atoms(cv, e.comp, t))
  \cup Clause("C36.compositions", \A t \in T : LET a == Atoms(cv, e.comp, t) IN \A k \in DOMAIN a : e.frac[t][k][2] > 0 /\ e.frac[t][k][1] * SumOf(a) = a[k] * e.frac[t][k][2])
  \cup Clause("C36.amounts_unchanged", e.same)
CascadeFails(e) ==
  LET cv == Curves(e.am, e.smooth) IN
  Clause("C36.cascade_times", e.xs = e.temps)
  \cup Clause("C36.cascade", Len(e.g) = Len(e.temps) /\ \A t \in DOMAIN e.temps :
        LET N == SumOf(Atoms(cv, e.comp, t)) IN AbsI(e.g[t] * N - Excess(cv, e.comp, e.e[t], e.ph[t], t)) <= 3 * N)
NetFails(e) == Clause("C36.one_mark_per_node", Len(e.cols) = Len(e.keys)) \cup Clause("C36.one_colour_per_chemical_system", ColouredBy(e.keys, e.cols))
  \cup Clause("C36.graph_unchanged", e.same)
Fails(e) == IF e.exc # "" THEN {"C36.no_exception:" \o e.exc} ELSE
  CASE e.op = "scatter" -> ScatterFails(e) [] e.op = "filter" -> FilterFails(e) [] e.op = "hull" -> HullFails(e)
    [] e.op = "path" -> PathFails(e) [] e.op = "cascade" -> CascadeFails(e) [] e.op = "net" -> NetFails(e)
Init == c \in 1..Len(Trace) /\ l = 1
Next == /\ l <= Len(Trace[c].ev) /\ Report(c, l, Fails(Trace[c].ev[l])) /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l>>
=============================================================================
