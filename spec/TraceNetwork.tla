---------------------------- MODULE TraceNetwork ----------------------------
(* Conformance of recorded network histories (C12, C13, C15) and k-shortest *)
(* path searches (C14).                                                     *)
EXTENDS Network, TraceIO
VARIABLES c, l, st
SetOf(s) == {s[i] : i \in DOMAIN s}
Rs(x) == [i \in DOMAIN x |-> [r |-> SetOf(x[i].r), p |-> SetOf(x[i].p), w |-> x[i].w]]
Node(x) == <<x[1], SetOf(x[2])>>
GraphFails(pfx, rs, pre, tgt, o) ==
  LET I == Ideal(rs, pre, tgt)
      ns == TLCEval([i \in DOMAIN o.nodes |-> Node(o.nodes[i])])
      es == TLCEval([i \in DOMAIN o.edges |-> Edge(ns[o.edges[i][1]], ns[o.edges[i][2]], o.edges[i][3], o.edges[i][4])])
      got == SetOf(es)
      Is(k) == {e \in I.edges : e.k = k} Got(k) == {e \in got : e.k = k}
  IN Clause(pfx \o "nodes", SetOf(ns) = I.nodes) \cup Clause(pfx \o "nodes_once", Cardinality(SetOf(ns)) = Len(ns))
     \cup Clause(pfx \o "reaction_edges", Got("rxn") = Is("rxn")) \cup Clause(pfx \o "free_edges", Got("loop") = Is("loop"))
     \cup Clause(pfx \o "precursor_edges", Got("pre") = Is("pre")) \cup Clause(pfx \o "target_edges", Got("tgt") = Is("tgt"))
     \cup Clause(pfx \o "edges_once", Cardinality(got) = Len(es)) \cup Clause(pfx \o "known_edges", got \subseteq I.edges \/ \A e \in got : e.k \in {"rxn", "loop", "pre", "tgt"})
     \cup Clause(pfx \o "edge_costs", \A i \in DOMAIN o.edges : o.edges[i][3] = "rxn" => o.edges[i][5] = rs[o.edges[i][4]].w)

\* pathways found for one target: qs sequence of [ix, costs, total]
FindFails(rs, pre, tgt, k, qs) ==
  LET g == Ideal(rs, pre, tgt) ns == SetToSeq(g.nodes) ix == TLCEval(Ix(ns)) W == TLCEval(Adj(Numbered(rs, g, ns)))
      all == TLCEval(AllPaths(W, ix[<<"S", pre>>], ix[<<"T", {tgt}>>]))
      known == \A i \in DOMAIN qs : qs[i].ix # <<>> /\ \A j \in DOMAIN qs[i].ix : qs[i].ix[j] \in DOMAIN rs
  IN IF ~known THEN {"C15.network_reactions"}
     ELSE Clause("C15.executable", \A i \in DOMAIN qs : Executable(rs, pre, tgt, qs[i].ix))
          \cup Clause("C15.step_costs", \A i \in DOMAIN qs : Len(qs[i].costs) = Len(qs[i].ix) /\ \A j \in DOMAIN qs[i].ix : qs[i].costs[j] = rs[qs[i].ix[j]].w)
          \cup Clause("C15.total_cost", \A i \in DOMAIN qs : qs[i].total = TotalCost(rs, qs[i].ix))
          \cup Clause("C15.cheapest_parallel", \A i \in DOMAIN qs : \A j \in DOMAIN qs[i].ix : \A m \in DOMAIN rs :
                        (rs[m].r = rs[qs[i].ix[j]].r /\ rs[m].p = rs[qs[i].ix[j]].p) => rs[qs[i].ix[j]].w <= rs[m].w)
          \cup {"C15." \o x : x \in KspFails(W, ix[<<"S", pre>>], ix[<<"T", {tgt}>>], k, [i \in DOMAIN qs |-> NodePath(rs, pre, tgt, qs[i].ix, ix)], all)}
FindAll(rs, pre, e) ==
  LET cnt(t) == Cardinality({i \in DOMAIN e.paths : e.paths[i].tgt = t})
  IN UNION {FindFails(rs, pre, e.targets[j], e.k, SelectSeq(e.paths, LAMBDA q : q.tgt = e.targets[j])) : j \in DOMAIN e.targets}
     \cup Clause("C15.targets_in_order", \A i \in 1..(Len(e.paths) - 1) :
            (CHOOSE a \in DOMAIN e.targets : e.targets[a] = e.paths[i].tgt) <= (CHOOSE a \in DOMAIN e.targets : e.targets[a] = e.paths[i + 1].tgt))

Apply(s, e) ==
  CASE e.op = "build" ->
         LET rs == Rs(e.rs) IN
         [st |-> [rs |-> rs, pre |-> {}, tgt |-> 0],
          fails |-> IF e.exc # "" THEN {"C12.no_exception:" \o e.exc} ELSE GraphFails("C12.", rs, {}, 0, e.g)]
    [] e.op = "setp" ->
         LET S == SetOf(e.ids) IN
         IF e.missing THEN [st |-> s, fails |-> Clause("C13.unknown_precursor_rejected", e.exc # "") \cup GraphFails("C13.after_rejected_", s.rs, s.pre, s.tgt, e.g)]
         ELSE [st |-> [s EXCEPT !.pre = S],
               fails |-> IF e.exc # "" THEN {"C13.no_exception:" \o e.exc}
                         ELSE (IF s.pre = {} THEN GraphFails("C12.precursors_", s.rs, S, s.tgt, e.g) ELSE {}) \cup GraphFails("C13.precursors_", s.rs, S, s.tgt, e.g)
                              \cup Clause("C13.precursors_are_the_ground_states", SetOf(e.now) = S)]
    [] e.op = "sett" ->
         IF e.missing THEN [st |-> s, fails |-> Clause("C13.unknown_target_rejected", e.exc # "") \cup GraphFails("C13.after_rejected_", s.rs, s.pre, s.tgt, e.g)]
         ELSE [st |-> [s EXCEPT !.tgt = e.id],
               fails |-> IF e.exc # "" THEN {"C13.no_exception:" \o e.exc}
                         ELSE (IF s.tgt = 0 THEN GraphFails("C12.target_", s.rs, s.pre, e.id, e.g) ELSE {}) \cup GraphFails("C13.target_", s.rs, s.pre, e.id, e.g)]
    [] e.op = "find" ->
         LET t == e.targets[Len(e.targets)] IN
         IF s.pre = {} THEN [st |-> s, fails |-> Clause("C15.needs_precursors", e.exc # "")]
         ELSE [st |-> [s EXCEPT !.tgt = t],
               fails |-> IF e.exc # "" THEN {"C15.no_exception:" \o e.exc, "C13.no_exception_find:" \o e.exc}
                         ELSE FindAll(s.rs, s.pre, e) \cup GraphFails("C13.find_", s.rs, s.pre, t, e.g)
                              \cup Clause("C13.same_pathways_as_fresh_network", e.same)]
    [] e.op = "reload" ->
         [st |-> s, fails |-> IF e.exc # "" THEN {"C30.no_exception_network:" \o e.exc}
                              ELSE GraphFails("C30.network_", s.rs, s.pre, s.tgt, e.g) \cup Clause("C30.network_precursors", SetOf(e.now) = s.pre)
                                   \cup Clause("C30.network_target", e.tgtnow = s.tgt) \cup Clause("C30.network_input_unchanged", e.unchanged)]
    [] e.op = "ksp" ->
         LET g == [n |-> e.n, e |-> e.arcs] W == TLCEval(Adj(g)) IN
         [st |-> s, fails |-> IF e.exc # "" THEN {"C14.no_exception:" \o e.exc}
                              ELSE Clause("C14.graph_unchanged", e.unchanged)
                                   \cup (IF \E i \in DOMAIN e.paths : \E j \in DOMAIN e.paths[i] : e.paths[i][j] \notin 1..e.n THEN {"C14.known_nodes"}
                                         ELSE {"C14." \o x : x \in KspFails(W, e.s, e.t, e.k, e.paths, TLCEval(AllPaths(W, e.s, e.t)))})]

Init == c \in 1..Len(Trace) /\ l = 1 /\ st = 0
Next == /\ l <= Len(Trace[c].ev)
        /\ LET r == Apply(st, Trace[c].ev[l]) IN st' = r.st /\ Report(c, l, r.fails)
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
