-------------------------- MODULE TraceCompetition --------------------------
(* Conformance of competition calculations over a whole set of reactions    *)
(* (C26): which reactions are scored, against which competitors, and that   *)
(* every score is the one the reaction has on its own.                      *)
(* Reactions: [R: formulas of the reactants, n: non-open atoms of each in   *)
(*  the reaction, P: formulas of the products, y: energy per atom, D]       *)
EXTENDS InterfaceHull, Competition, TraceIO
VARIABLES c, l, st
NearI(a, b, t) == AbsI(a - b) <= t
Amount(r, f) == IF f \in RangeOf(r.R) THEN r.n[CHOOSE k \in DOMAIN r.R : r.R[k] = f] ELSE 0
PointFor(w, i, r) == LET b == Max(Pre(w, i)) a == Min(Pre(w, i)) x == w.rxns[r]
                     IN <<(w.rxns[i].D * Amount(x, b)) \div (Amount(x, a) + Amount(x, b)), x.y>>
Points(w, i) == {PointFor(w, i, r) : r \in Competing(w, i)}
\* no reaction so close to the hull that rounding decides whether it is on it
Robust(P, D, V) == V = Vertices(P, D, 3) /\ (\A p \in P : p[2] < -2 \/ p[2] > 2) /\ \A p \in P \ V : Clearly(P, D, p, 3)
Alone(w, i) == \* one precursor: all other reactions of it compete, and that it does not react
  w.rxns[i].y - Min({0} \cup {w.rxns[r].y : r \in Competing(w, i) \ {i}})
Tol(q, v) == IF Len(q) <= 8 THEN 3 * Len(q) + 3 ELSE 20 + AbsI(v) \div 25
ScoreFails(w, g) ==
  LET i == g.tag IN
  IF Cardinality(Pre(w, i)) = 1 THEN
    Clause("C26.primary_one_precursor", NearI(g.prim, Alone(w, i), 7))
    \cup Clause("C26.secondary_one_precursor", NearI(g.sec, Max({0, Alone(w, i)}), 7))
  ELSE LET P == Points(w, i) D == w.rxns[i].D p == PointFor(w, i, i) V == TLCEval(Vertices(P, D, 0))
           L == Between(V, D, 0, p[1]) R == Between(V, D, p[1], D) m == -(MeanEnergy(L) + MeanEnergy(R))
       IN Clause("C26.primary", NearI(g.prim, Primary(P, D, p[1], p[2]), 3))
          \cup Clause("C26.secondary", Robust(P, D, V) => NearI(g.sec, m, Tol(L, m) + Tol(R, m)))
JobFails(w, e) ==
  LET T == Target(w) bad == {i \in T : Cardinality(Pre(w, i)) \notin {1, 2}} IN
  IF e.exc # "" THEN Clause("C26.no_exception:" \o e.exc, T = {} \/ (e.scores /\ bad # {})) ELSE
  IF T = {} THEN {"C26.missing_target_reported"} ELSE
  Clause("C26.each_reaction_once", \A i \in DOMAIN w.rxns : Cardinality({k \in DOMAIN e.got : e.got[k].tag = i}) = (IF i \in T THEN 1 ELSE 0))
  \cup Clause("C26.nothing_else", \A k \in DOMAIN e.got : e.got[k].tag \in T)
  \cup Clause("C26.same_reaction", \A k \in DOMAIN e.got : e.got[k].same)
  \cup Clause("C26.data_kept", \A k \in DOMAIN e.got : e.got[k].kept)
  \cup Clause("C26.conditions", e.mu)
  \cup Clause("C26.document", e.doc)
  \cup Clause("C26.input_unchanged", e.input)
  \cup (IF ~e.scores THEN Clause("C26.no_scores_unless_requested", \A k \in DOMAIN e.got : ~e.got[k].has)
        ELSE UNION {ScoreFails(w, e.got[k]) : k \in {j \in DOMAIN e.got : e.got[j].tag \in T \ bad}})
\* chemical potential distances: one for every reaction, that of a diagram covering the reaction, and,
\* whatever the chunk size, that of the diagram of its own chemical system
DistFails(w, e) ==
  LET T == Target(w) val(i) == e.vals[CHOOSE k \in DOMAIN e.vals : e.vals[k].tag = i] IN
  IF e.exc # "" THEN Clause("C26.no_exception:" \o e.exc, \E k \in DOMAIN e.vals : e.vals[k].own = <<>>) ELSE
  UNION {LET run == e.runs[k] IN
     Clause("C26.each_reaction_once", \A i \in DOMAIN w.rxns : Cardinality({j \in DOMAIN run : run[j][1] = i}) = (IF i \in T THEN 1 ELSE 0))
     \cup Clause("C26.distance_in_a_covering_diagram", \A j \in DOMAIN run : run[j][1] \in T =>
                  \E h \in DOMAIN val(run[j][1]).any : NearI(val(run[j][1]).any[h], run[j][2], 3))
     \cup Clause("C26.distance_in_own_diagram", \A j \in DOMAIN run : run[j][1] \in T =>
                  \A h \in DOMAIN val(run[j][1]).own : NearI(val(run[j][1]).own[h], run[j][2], 3))
     : k \in DOMAIN e.runs}
Apply(s, e) ==
  CASE e.op = "world" -> [st |-> e, fails |-> {}]
    [] e.op = "job" -> [st |-> s, fails |-> JobFails(s, e)]
    [] e.op = "dist" -> [st |-> s, fails |-> DistFails(s, e)]
Init == c \in 1..Len(Trace) /\ l = 1 /\ st = 0
Next == /\ l <= Len(Trace[c].ev)
        /\ LET r == Apply(st, Trace[c].ev[l]) IN st' = r.st /\ Report(c, l, r.fails)
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
