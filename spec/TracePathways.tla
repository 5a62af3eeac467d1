--------------------------- MODULE TracePathways ---------------------------
(* Conformance of the pathway solver (C16, C17, C18) and of pathways and    *)
(* pathway sets (C19).                                                      *)
EXTENDS Pathways, TraceIO
VARIABLES c, l, st
TP == INSTANCE TaskPool
SetOf(s) == {s[i] : i \in DOMAIN s}

-----------------------------------------------------------------------------
\* st: the problem. ph[j]: formula number of phase j; cl[k]: integer vector of candidate class
\* k; mem: its members [v, d, k, w] (vector v / d, cost w); net; max; mult: is class k that of net
NotNet(s) == {k \in DOMAIN s.cl : s.cl[k] # s.netcl}
Must(s) == TLCEval({S \in Solutions(s.cl, s.net, s.max) : S \subseteq NotNet(s)})
PathOf(s, ks) == LET q == SetToSeqI(ks) F(X) == {s.ph[j] : j \in X}
                 IN [i \in DOMAIN q |-> [r |-> F(Sides(s.cl[q[i]]).r), p |-> F(Sides(s.cl[q[i]]).p)]]
PreOf(s) == {s.ph[j] : j \in Sides(s.net).r}
\* a reaction between intermediates may be written for any amount
Same(a, b) == a.any \/ (a.v = b.v /\ a.d = b.d)
\* one returned pathway [rx: sequence of [v, d, k, w, open], ms, avg]  (multiplicities counted in 1/netd)
PathFails(s, x, filtered) ==
  LET n == Len(x.rx) ks == {x.rx[i].k : i \in 1..n} cs == [i \in 1..n |-> x.rx[i].w]
      vs == TLCEval([i \in 1..n |-> [j \in DOMAIN s.net |-> RNorm(x.rx[i].v[j], x.rx[i].d)]])
      known == \A i \in 1..n : x.rx[i].k # 0 /\ x.rx[i].d # 0
  IN IF n = 0 THEN {"C16.not_empty"} ELSE
     IF ~known THEN {"C16.candidate_reactions"} ELSE
     Clause("C16.candidate_reactions", \A i \in 1..n : \E m \in DOMAIN s.mem : s.mem[m].k = x.rx[i].k /\ Same(s.mem[m], x.rx[i]))
     \cup Clause("C16.distinct_reactions", Cardinality(ks) = n)
     \cup Clause("C16.positive_multiplicities", Len(x.ms) = n /\ \A i \in DOMAIN x.ms : IsRat(x.ms[i]) /\ RSign(x.ms[i]) = 1)
     \cup Clause("C16.adds_up_to_net", Len(x.ms) = n /\ \A i \in DOMAIN x.ms : IsRat(x.ms[i]) =>
             Weighted(x.ms, vs, Len(s.net)) = [j \in DOMAIN s.net |-> RInt(s.net[j])])
     \cup Clause("C16.size", n <= s.max)
     \cup Clause("C16.costs", Len(x.costs) = n /\ \A i \in 1..n : \E m \in DOMAIN s.mem : s.mem[m].k = x.rx[i].k /\ Same(s.mem[m], x.rx[i]) /\ s.mem[m].w = x.costs[i])
     \cup Clause("C16.average_cost", Len(x.ms) # n \/ Len(x.costs) # n \/ (IsRat(x.avg) /\ x.avg = AvgCost(x.ms, [i \in 1..n |-> RInt(x.costs[i])])))
     \cup Clause("C16.consumes_available", \A i \in 1..n : \A j \in DOMAIN s.net : x.rx[i].v[j] < 0 => s.net[j] < 0 \/ \E h \in 1..n : x.rx[h].v[j] > 0)
     \cup Clause("C16.balanced", x.bal) \cup Clause("C16.open_element", \A i \in 1..n : x.rx[i].open = s.open)
     \cup Clause("C18.unrealizable_kept", ~filtered \/ Realizable(PathOf(s, ks), PreOf(s)))
KSet(x) == {x.rx[i].k : i \in DOMAIN x.rx}
SolveFails(s, e) ==
  IF e.exc # "" THEN {"C17.no_exception:" \o e.exc, "C16.no_exception:" \o e.exc, "C18.no_exception:" \o e.exc}
  ELSE LET got == TLCEval({KSet(e.paths[i]) : i \in DOMAIN e.paths})
           all == s.must
           want == IF e.filter THEN {S \in all : Realizable(PathOf(s, S), PreOf(s))} ELSE all
       IN UNION {PathFails(s, e.paths[i], e.filter) : i \in DOMAIN e.paths}
          \cup Clause("C16.once", Cardinality(got) = Len(e.paths))
          \cup Clause("C16.sorted", \A i \in 1..(Len(e.paths) - 1) : RLe(e.paths[i].avg, e.paths[i + 1].avg))
          \cup Clause("C17.complete", (want \cap {S \in all : Realizable(PathOf(s, S), PreOf(s))}) \subseteq got)
          \cup Clause(IF e.filter THEN "C18.realizable_dropped" ELSE "C17.complete_without_filter", want \subseteq got)
          \cup Clause("C17.schedule_independent", \A h \in DOMAIN s.seen : (s.seen[h].filter = e.filter) => s.seen[h].got = got)
          \cup Clause("C18.subset_of_unfiltered", \A h \in DOMAIN s.seen :
                 IF e.filter = s.seen[h].filter THEN TRUE
                 ELSE IF e.filter THEN got = {S \in s.seen[h].got : Realizable(PathOf(s, S), PreOf(s))}
                 ELSE s.seen[h].got = {S \in got : Realizable(PathOf(s, S), PreOf(s))})
          \cup {"C17.tasks_" \o x : x \in TP!PoolFails(e.ntasks, e.log)}
          \cup Clause("C17.input_unchanged", e.unchanged)

-----------------------------------------------------------------------------
\* pathways as recorded: [k, ids, cs, ms, bal] kind ("basic"/"balanced"), reaction ids (classes of
\* equal reactions), costs, multiplicities
SamePath(a, b) == a.k = b.k /\ a.ids = b.ids /\ a.cs = b.cs /\ (a.k = "balanced" => a.ms = b.ms)
Prods(s, a) == UNION {SetOf(s.rxn[a.ids[i]].p) : i \in DOMAIN a.ids}
Reacs(s, a) == UNION {SetOf(s.rxn[a.ids[i]].r) : i \in DOMAIN a.ids}
PsetFails(s, e) ==
  IF e.exc # "" THEN {"C19.no_exception:" \o e.exc} ELSE
  LET want == e.want IN
  Clause("C19.length", e.len = Len(want)) \cup Clause("C19.number_of_pathways", Len(e.got) = Len(want))
  \cup (IF Len(e.got) # Len(want) THEN {} ELSE
     Clause("C19.reactions", \A i \in DOMAIN want : e.got[i].ids = want[i].ids)
     \cup Clause("C19.entries", \A i \in DOMAIN want : e.got[i].polys = want[i].polys)
     \cup Clause("C19.costs", \A i \in DOMAIN want : e.got[i].cs = want[i].cs)
     \cup Clause("C19.kind", \A i \in DOMAIN want : e.got[i].k = want[i].k)
     \cup Clause("C19.multiplicities", \A i \in DOMAIN want : e.got[i].ms = want[i].ms)
     \cup Clause("C19.balanced_status", \A i \in DOMAIN want : e.got[i].bal = want[i].bal)
     \cup Clause("C19.equal_to_original", \A i \in DOMAIN want : e.eqs[i]))
  \cup Clause("C19.input_unchanged", e.unchanged)
FactFails(s, a, e) ==
  IF e.exc # "" THEN {"C19.no_exception:" \o e.exc} ELSE
  Clause("C19.total_cost", e.total = RInt(ISum(a.cs)))
  \cup (IF a.k = "balanced" THEN Clause("C19.average_cost", e.avg = AvgCost(a.ms, [i \in DOMAIN a.cs |-> RInt(a.cs[i])])) ELSE {})
  \cup Clause("C19.net_reactants", SetOf(e.r) = Reacs(s, a) \ Prods(s, a)) \cup Clause("C19.net_products", SetOf(e.p) = Prods(s, a) \ Reacs(s, a))
  \cup Clause("C19.intermediates", SetOf(e.i) = Prods(s, a) \cap Reacs(s, a)) \cup Clause("C19.all_phases", SetOf(e.all) = Prods(s, a) \cup Reacs(s, a))
  \cup Clause("C19.energy", e.energy = RSum([i \in DOMAIN a.ids |-> s.rxn[a.ids[i]].e]))

Apply(s, e) ==
  CASE e.op = "problem" ->
         LET p == [ph |-> e.ph, cl |-> e.cl, mem |-> e.mem, net |-> e.net, netd |-> e.netd, netcl |-> e.netcl, max |-> e.max, open |-> e.open, must |-> {}, seen |-> <<>>]
         IN [st |-> [p EXCEPT !.must = Must(p)], fails |-> {}]
    [] e.op = "solve" ->
         [st |-> IF e.exc # "" THEN s ELSE [s EXCEPT !.seen = Append(@, [filter |-> e.filter, got |-> {KSet(e.paths[i]) : i \in DOMAIN e.paths}])],
          fails |-> SolveFails(s, e)]
    [] e.op = "interdep" ->
         LET P == [i \in DOMAIN e.rx |-> [r |-> SetOf(e.rx[i].r), p |-> SetOf(e.rx[i].p)]]
         IN [st |-> s, fails |-> IF e.exc # "" THEN {"C18.no_exception:" \o e.exc}
                ELSE Clause("C18.unrealizable_reported", ~Realizable(P, SetOf(e.pre)) => e.dep) \cup Clause("C18.realizable_not_reported", Realizable(P, SetOf(e.pre)) => ~e.dep)]
    [] e.op = "world" -> [st |-> e, fails |-> {}]
    [] e.op = "pset" -> [st |-> s, fails |-> PsetFails(s, e)]
    [] e.op = "facts" -> [st |-> s, fails |-> FactFails(s, e.path, e)]
    [] e.op = "eq" -> [st |-> s, fails |-> IF e.exc # "" THEN {"C19.no_exception:" \o e.exc}
                 ELSE Clause("C19.equal_pathways_equal", SamePath(e.a, e.b) => e.eq) \cup Clause("C19.different_pathways_different", ~SamePath(e.a, e.b) => ~e.eq)
                      \cup Clause("C19.symmetric", e.eq = e.eqr) \cup Clause("C19.equal_hash", e.eq => e.hash)
                      \cup Clause("C19.set_membership", e.inset = SamePath(e.a, e.b))]

Init == c \in 1..Len(Trace) /\ l = 1 /\ st = 0
Next == /\ l <= Len(Trace[c].ev)
        /\ LET r == Apply(st, Trace[c].ev[l]) IN st' = r.st /\ Report(c, l, r.fails)
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
