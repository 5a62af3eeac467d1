---------------------------- MODULE TraceChemPot ----------------------------
(* Conformance of chemical potential diagrams (C29). A case is a set of     *)
(* phases; C, E, at (composition, energy in meV, atoms) are per entry, f its*)
(* formula (a number), lims the limits. Events are answers of one diagram,  *)
(* in the order they were asked for. Corners are in meV, rounded.           *)
EXTENDS ChemPot, TraceIO, SequencesExt
VARIABLES c, l, st
RangeOf(s) == {s[i] : i \in DOMAIN s}
Big == 500000
World(e) ==
  LET d == Len(e.lims)
      least(i) == \A j \in DOMAIN e.E : e.f[j] = e.f[i] => e.E[i] * e.at[j] <= e.E[j] * e.at[i]
      S == {i \in DOMAIN e.E : least(i) /\ \A j \in DOMAIN e.E : j < i /\ e.f[j] = e.f[i] => ~least(j)}
      P == TLCEval(Diagram(e.C, e.E, S, e.lims))
      Q == TLCEval(Diagram(e.C, e.E, S, [k \in 1..d |-> <<-Big, 0>>]))
  IN [d |-> d, C |-> e.C, E |-> e.E, f |-> e.f, at |-> e.at, S |-> S, P |-> P, Q |-> Q, free |-> e.free, stale |-> RangeOf(e.stale)]
\* the entry that stands for formula g
Of(w, g) == CHOOSE i \in w.S : w.f[i] = g
\* a rounded corner p is the corner v
Near(p, v, tol) == LET den == v[Len(v)] IN \A k \in DOMAIN p : RatAbs(p[k] * den - v[k]) <= tol * den
Same(pts, F, tol) == /\ \A i \in DOMAIN pts : \E v \in F : Near(pts[i], v, tol)
                     /\ \A v \in F : \E i \in DOMAIN pts : Near(pts[i], v, tol)
StableIn(w, i) == Tight(w.P, w.C[i], w.E[i])
\* with limits cutting through the domains a domain may only touch them
Needed(w, i) == Facet(StableIn(w, i), w.d)
DomFails(w, e) ==
  LET has == {e.dom[k].f : k \in DOMAIN e.dom} IN
  Clause("C29.stable_phases_have_domains", \A i \in w.S : Needed(w, i) => w.f[i] \in has)
  \cup Clause("C29.only_stable_phases_have_domains", \A i \in w.S : StableIn(w, i) = {} => w.f[i] \notin has)
  \cup Clause("C29.one_domain_per_formula", Cardinality(has) = Len(e.dom))
  \cup Clause("C29.domain_is_where_the_phase_is_stable",
         \A k \in DOMAIN e.dom : Same(e.dom[k].pts, StableIn(w, Of(w, e.dom[k].f)), 2))
Hull(w, i) == Best(w.Q, w.C[i])
OnHull(w, i) == Hull(w, i) = RInt(w.E[i])
\* lowered onto the hull: the tolerance of the lowering, seen at the corners
MetaOK(w, g, pts) ==
  LET i == Of(w, g) F == TLCEval(Face(w.Q, w.C[i])) IN
  g \in w.stale \/ Same(pts, F, IF OnHull(w, i) THEN 700 ELSE 4)
MetaFails(w, e) ==
  Clause("C29.metastable_domain_is_that_of_the_phase_on_the_hull", \A k \in DOMAIN e.dom : MetaOK(w, e.dom[k].f, e.dom[k].pts))
  \cup Clause("C29.metastable_domains_of_the_others", {e.dom[k].f : k \in DOMAIN e.dom} = {w.f[i] : i \in w.S} \ RangeOf(e.has))
\* the least distance of two corners, in meV (components beyond cap are cut)
Cap == 15000
Cut(x) == IF x > Cap THEN Cap ELSE IF x < -Cap THEN -Cap ELSE x
D2(a, b) == ISum([k \in DOMAIN a |-> Cut(a[k] - b[k]) * Cut(a[k] - b[k])])
Least(A, B) == LET all == TLCEval({D2(A[i], B[j]) : i \in DOMAIN A, j \in DOMAIN B}) IN FoldSet(LAMBDA x, y : IF x < y THEN x ELSE y, CHOOSE x \in all : TRUE, all)
IsSqrt(x, sq, tol) == LET lo == IF x > tol THEN x - tol ELSE 0 IN lo * lo <= sq /\ sq <= (x + tol) * (x + tol)
DistFails(e) ==
  LET x == e.got - e.off m == Least(e.a, e.b) IN
  Clause("C29.distance_is_that_of_the_closest_corners", IF m >= Cap * Cap THEN x >= Cap - 5 ELSE x >= -2 /\ IsSqrt(x, m, 3))
  \cup Clause("C29.phases_that_touch_are_not_apart", e.touch => RatAbs(e.got5 - 100 * e.off) <= 4)
  \cup Clause("C29.distance_symmetric", RatAbs(e.got - e.rev) <= 1)
\* offset: the energy above the hull, seen as a distance of planes
OffFails(w, e) ==
  LET i == e.i h == Hull(w, i) n2 == Dot(w.C[i], w.C[i]) above == w.E[i] * h[2] - h[1]
      \* (offset * den)^2 * n2 = above^2, offset in meV
  IN Clause("C29.offset_nonnegative", e.got >= 0)
     \cup Clause("C29.offset_zero_exactly_on_the_hull", (above = 0) = (e.got = 0 /\ e.zero))
     \cup Clause("C29.offset_is_the_energy_above_the_hull", LET a == (above + h[2] \div 2) \div h[2] IN
            LET lo == IF e.got > 1 THEN e.got - 1 ELSE 0 IN
              lo * lo * n2 <= (a + 1) * (a + 1) /\ (e.got + 1) * (e.got + 1) * n2 >= (IF a > 1 THEN (a - 1) * (a - 1) ELSE 0))
CalcFails(e) == Clause("C29.reaction_distance", RatAbs(e.got - (CASE e.agg = "sum" -> FoldLeft(LAMBDA x, y : x + y, 0, e.pairs)
                    [] e.agg = "max" -> FoldLeft(LAMBDA x, y : IF x > y THEN x ELSE y, e.pairs[1], e.pairs)
                    [] e.agg = "min" -> FoldLeft(LAMBDA x, y : IF x < y THEN x ELSE y, e.pairs[1], e.pairs)
                    [] OTHER -> FoldLeft(LAMBDA x, y : x + y, 0, e.pairs) \div Len(e.pairs))) <= Len(e.pairs) + 1)
Fails(w, e) ==
  IF e.op \notin {"fail"} /\ e.exc # "" THEN IF e.op = "dist" /\ {e.f1, e.f2} \cap w.stale # {} THEN {} ELSE {"C29.no_exception:" \o e.op \o ":" \o e.exc} ELSE
  (CASE e.op = "domains" -> DomFails(w, e) [] e.op = "metas" -> MetaFails(w, e)
    [] e.op = "meta" -> Clause("C29.metastable_domain_is_that_of_the_phase_on_the_hull", MetaOK(w, e.f, e.pts))
    [] e.op = "dist" -> DistFails(e) [] e.op = "offset" -> OffFails(w, e) [] e.op = "calc" -> CalcFails(e)
    [] e.op = "fail" -> Clause("C29.unknown_phase_is_an_error", e.exc # ""))
  \cup (IF e.op = "fail" THEN {} ELSE Clause("C29.independent_of_earlier_questions:" \o e.op, e.same))
  \cup Clause("C29.arguments_unchanged", e.input)
Init == c \in 1..Len(Trace) /\ l = 1 /\ st = <<>>
Next == /\ l <= Len(Trace[c].ev)
        /\ LET e == Trace[c].ev[l] IN
             IF e.op = "world" THEN st' = World(e) ELSE st' = st /\ Report(c, l, Fails(st, e))
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
