------------------------- MODULE TraceInterfaceHull -------------------------
(* Conformance of interface reaction hulls (C24) and of the competition     *)
(* scores derived from them (C25).                                          *)
EXTENDS InterfaceHull, TraceIO
VARIABLES c, l, st
RangeOf(s) == {s[i] : i \in DOMAIN s}
NearI(a, b, t) == AbsI(a - b) <= t
Pts(s) == {<<r.x, r.y>> : r \in RangeOf(s.rxns)}
\* point of position k of the hull: a reaction (k >= 1) or a precursor (0, -1)
PointOf(s, k) == IF k = 0 THEN <<0, 0>> ELSE IF k = -1 THEN <<s.D, 0>> ELSE <<s.rxns[k].x, s.rxns[k].y>>
SameP(p, q) == p[1] = q[1] /\ NearI(p[2], q[2], 1)
Stable(s) == {PointOf(s, s.stable[i]) : i \in DOMAIN s.stable}
V(s) == Vertices(Pts(s), s.D, 0)
HullFails(s) ==
  IF s.exc # "" THEN {"C24.no_exception:" \o s.exc} ELSE
  LET P == Pts(s) n == Len(s.rxns) ids == {-1, 0} \cup 1..n IN
  Clause("C24.mixing_ratio", \A i \in 1..n : s.rxns[i].x * (s.rxns[i].a1 + s.rxns[i].a2) = s.D * s.rxns[i].a2)
  \cup Clause("C24.every_reaction_once", Len(s.order) = n + 2 /\ RangeOf(s.order) = ids)
  \cup Clause("C24.coordinates", Len(s.coords) = Len(s.order) /\ \A i \in DOMAIN s.coords : SameP(s.coords[i], PointOf(s, s.order[i])))
  \cup Clause("C24.coordinate_of_reaction", \A i \in 1..n : s.rxns[i].gx = s.rxns[i].x)
  \cup Clause("C24.ordered_by_mixing_ratio", \A i \in 1..(Len(s.coords) - 1) : s.coords[i][1] <= s.coords[i + 1][1])
  \cup Clause("C24.stable_on_envelope", \A p \in Stable(s) : p[2] <= 1 /\ ~Clearly(P, s.D, p, 2))
  \cup Clause("C24.vertices_stable", \A p \in Vertices(P, s.D, 2) : p[2] <= 0 => \E q \in Stable(s) : SameP(p, q))
  \cup Clause("C24.ends_stable", \A x \in {0, s.D} : \E q \in Stable(s) : q[1] = x)
  \cup Clause("C24.stable_or_unstable", RangeOf(s.stable) \cup RangeOf(s.unstable) = ids /\ RangeOf(s.stable) \cap RangeOf(s.unstable) = {}
                                        /\ Len(s.stable) + Len(s.unstable) = n + 2)
  \cup Clause("C24.energy_above_hull", \A i \in 1..n : NearI(s.rxns[i].eh, s.rxns[i].y - EnvV(V(s), s.rxns[i].x), 3))
  \cup Clause("C24.not_below_hull", \A i \in 1..n : s.rxns[i].eh >= 0)
AtFails(s, e) ==
  IF e.exc # "" THEN {"C24.no_exception:" \o e.exc} ELSE
  Clause("C24.hull_energy", NearI(e.y, EnvV(V(s), e.x), 3))
  \cup Clause("C24.reactions_at_ratio",
       /\ \A i \in DOMAIN e.mix : e.mix[i][2] > 0 /\ \E q \in Stable(s) : SameP(PointOf(s, e.mix[i][1]), q)
       /\ FoldLeft(LAMBDA t, r : t + r[2], 0, e.mix) \in 9998..10002
       /\ NearI(FoldLeft(LAMBDA t, r : t + r[2] * PointOf(s, r[1])[1], 0, e.mix), 10000 * e.x, 3 * s.D))
-----------------------------------------------------------------------------
Tol(q, v) == IF Len(q) <= 8 THEN 3 * Len(q) + 3 ELSE 20 + AbsI(v) \div 25
HasEnds(s) == \A x \in {0, s.D} : \E q \in Stable(s) : q[1] = x
CompFails(s, e) ==
  IF e.exc # "" THEN {"C25.no_exception:" \o e.exc} ELSE IF ~HasEnds(s) THEN {"C25.hull_reaches_both_ends"} ELSE
  LET x == s.rxns[e.i].x y == s.rxns[e.i].y W == Stable(s)
      L == Between(W, s.D, 0, x) R == Between(W, s.D, x, s.D)
      m == -(MeanEnergy(L) + MeanEnergy(R)) t == Tol(L, m) + Tol(R, m)
      eh == y - EnvV(V(s), x)
  IN Clause("C25.primary_competition", NearI(e.prim, Primary(Pts(s), s.D, x, y), 3))
     \cup Clause("C25.secondary_competition", NearI(e.sec, m, t))
     \cup Clause("C25.secondary_with_energy_above_hull", NearI(e.eh, m + eh, t + 3))
     \cup Clause("C25.recursive_agrees", e.rec = e.norec \/ NearI(e.rec, e.sec, 3))
     \cup Clause("C25.number_of_sequences", (Len(L) <= 10 /\ Len(R) <= 10 /\ e.ratio # 0) => e.ratio = CountOf(L) * CountOf(R))
     \cup Clause("C25.number_of_sequences_recursive", (Len(L) <= 10 /\ Len(R) <= 10 /\ e.rratio # 0) => e.rratio = CountOf(L) * CountOf(R))
     \cup Clause("C25.maximum", (Len(L) <= 14 /\ Len(R) <= 14) => NearI(e.mx, -(BestEnergy(L) + BestEnergy(R)), 6))
     \cup Clause("C25.area", e.area = e.norec \/ NearI(2 * s.D * e.area, Area2(L) + Area2(R), 2 * s.D * 8))
     \cup Clause("C25.calculators", e.calcs)
     \cup Clause("C25.hull_unchanged", e.same)
CountFails(e) == IF e.exc # "" THEN {"C25.no_exception:" \o e.exc} ELSE
  UNION {LET p == e.mods[i][1] IN Clause("C25.sequence_counts", e.mods[i][2] = SubSeq(CatMod(40, p), 1, Len(e.mods[i][2]))) : i \in DOMAIN e.mods}
RangeFails(s, e) == IF e.exc # "" THEN {"C25.no_exception:" \o e.exc} ELSE IF ~HasEnds(s) THEN {"C25.hull_reaches_both_ends"} ELSE
  LET q == Between(Stable(s), s.D, e.x1, e.x2) m == MeanEnergy(q)
  IN Clause("C25.points_in_range", Len(q) = Len(e.pts) /\ \A i \in DOMAIN q : NearI(q[i][1], e.pts[i][1], 0) /\ NearI(q[i][2], e.pts[i][2], 3))
     \cup Clause("C25.decomposition_energy", NearI(e.mean, m, Tol(q, m)))
     \cup Clause("C25.decomposition_recursive", e.rec = e.norec \/ NearI(e.rec, e.mean, 3))
Apply(s, e) ==
  CASE e.op = "hull" -> [st |-> e, fails |-> HullFails(e)]
    [] e.op = "at" -> [st |-> s, fails |-> AtFails(s, e)]
    [] e.op = "comp" -> [st |-> s, fails |-> CompFails(s, e)]
    [] e.op = "range" -> [st |-> s, fails |-> RangeFails(s, e)]
    [] e.op = "count" -> [st |-> s, fails |-> CountFails(e)]
Init == c \in 1..Len(Trace) /\ l = 1 /\ st = 0
Next == /\ l <= Len(Trace[c].ev)
        /\ LET r == Apply(st, Trace[c].ev[l]) IN st' = r.st /\ Report(c, l, r.fails)
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
