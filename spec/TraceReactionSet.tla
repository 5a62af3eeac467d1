-------------------------- MODULE TraceReactionSet --------------------------
(* Conformance of recorded histories of reaction sets (C08 - C11, C34).     *)
(* st = [u |-> universe, regs |-> sequence of sets]. Every operation event  *)
(* names its source register(s) and observes the resulting set and, again,  *)
(* its source: obs is the set found, src the source after the operation.    *)
EXTENDS ReactionSet, TraceIO
VARIABLES c, l, st

ObsRx(o) == [i \in DOMAIN o.rx |-> [e |-> o.rx[i].e, co |-> o.rx[i].co, d |-> o.rx[i].d]]
SetOf(s) == {s[i] : i \in DOMAIN s}
\* clauses that hold of any observation o of a set expected to be s
Observe(P, u, s, o) ==
  LET rx == ObsRx(o) IN
     Clause(P \o ".reactions", SameBag(rx, s.rx))
     \cup Clause(P \o ".length", o.len = Len(o.rx))
     \cup Clause(P \o ".entries", SetOf(o.ents) = s.ents)
     \cup Clause(P \o ".conditions", \A i \in DOMAIN o.rx :
            /\ o.rx[i].kind = (IF s.mu = <<>> THEN "computed" ELSE "open")
            /\ o.rx[i].mu = (IF s.mu = <<>> THEN <<>> ELSE <<s.mu>>))
     \cup Clause(P \o ".temperatures", \A i \in DOMAIN o.rx : \A j \in DOMAIN o.rx[i].t :
            o.rx[i].t[j] = TempOf(u, s, o.rx[i].e[j]))
     \cup Clause(P \o ".energies", \A i \in DOMAIN o.rx : REq(o.rx[i].en, EnergyIn(u, s, rx[i])))
     \cup Clause(P \o ".order_kept", \A i \in DOMAIN rx : \E k \in DOMAIN s.rx : s.rx[k] = rx[i])

Put(st0, s) == [st0 EXCEPT !.regs = Append(@, s)]

JudgeNew(s, e) ==
  LET ents == IF e.given = <<>> THEN EntsOf(e.rx) ELSE SetOf(e.given)
      mu == IF e.mu # <<>> THEN e.mu
            ELSE IF e.allopen THEN CommonMu(SetOf(e.rmu)) ELSE <<>>
      base == NewSet(e.rx, ents, mu)
  IN IF e.exc # "" THEN [st |-> Put(s, base), fails |-> {"C08.no_exception:new"}]
     ELSE IF e.filter
          THEN LET n == [base EXCEPT !.rx = ObsRx(e.obs)] IN
               [st |-> Put(s, n), fails |-> Clause("C09.filter_on_construction", FilterOk(e.rx, ObsRx(e.obs), <<>>))
                                             \cup Observe("C08", s.u, n, e.obs)]
          ELSE [st |-> Put(s, base), fails |-> Observe("C08", s.u, base, e.obs)]

JudgeOp(s, e) ==
  LET a == s.regs[e.i]
      P == CASE e.name \in {"add", "addset", "json", "observe"} -> "C08"
             [] e.name = "filter" -> "C09"
             [] e.name \in {"reactants", "product"} -> "C10"
             [] OTHER -> "C11"
      expect == CASE e.name = "add" -> AddRxns(a, e.rx)
                  [] e.name = "addset" -> AddRxns(a, s.regs[e.j].rx)
                  [] e.name \in {"json", "observe"} -> a
                  [] e.name = "filter" -> [a EXCEPT !.rx = ObsRx(e.obs)]
                  [] e.name = "reactants" -> ByReactants(s.u, a, SetOf(e.fs))
                  [] e.name = "product" -> ByProduct(s.u, a, e.f)
                  [] e.name = "chempot" -> SetChempot(a, e.mu)
                  [] e.name = "temp" -> SetTemp(a, e.T)
      rejects == CASE e.name = "addset" -> ~Combinable(s.u, a, s.regs[e.j])
                   [] e.name = "filter" -> Absent(a, e.ens)
                   [] OTHER -> FALSE
  IN IF rejects THEN [st |-> Put(s, a), fails |-> Clause(P \o ".rejected:" \o e.name, e.exc = "ValueError")
                                                  \cup Observe("C08", s.u, a, e.src)]
     ELSE IF e.exc # "" THEN [st |-> Put(s, a), fails |-> {P \o ".no_exception:" \o e.name \o ":" \o e.exc}]
     ELSE [st |-> Put(s, expect),
           fails |-> Observe(P, s.u, expect, e.obs)
                \cup {"C08.original_unchanged:" \o x : x \in Observe("C08", s.u, a, e.src)}
                \cup (IF e.name = "filter"
                      THEN Clause("C09.subset", FilterSubset(a.rx, ObsRx(e.obs)))
                           \cup Clause("C09.every_class_represented", FilterCovers(a.rx, ObsRx(e.obs)))
                           \cup Clause("C09.one_per_class", FilterUnique(ObsRx(e.obs), e.ens))
                           \cup Clause("C09.ensured_kept", FilterEnsured(ObsRx(e.obs), e.ens))
                      ELSE {})
                \cup (IF e.name \in {"reactants", "product"}
                      THEN Clause("C10.list_equals_set", SameBag(ObsRx(e.obs), ObsRx(e.lst)))
                           \cup Clause("C10.list_energies", \A i \in DOMAIN e.lst.rx : REq(e.lst.rx[i].en, EnergyIn(s.u, a, ObsRx(e.lst)[i])))
                      ELSE {})]

\* one reaction taken from register i, moved to temperature T by itself
JudgeRxnTemp(s, e) ==
  LET a == s.regs[e.i]
      b == SetTemp(a, e.T)
      x == [e |-> e.rx.e, co |-> e.rx.co, d |-> e.rx.d]
  IN IF e.exc # "" THEN {"C11.no_exception:rxntemp:" \o e.exc}
     ELSE Clause("C11.rxn_same", x = e.x)
          \cup Clause("C11.rxn_kind", e.rx.kind = (IF a.mu = <<>> THEN "computed" ELSE "open") /\ e.rx.mu = (IF a.mu = <<>> THEN <<>> ELSE <<a.mu>>))
          \cup Clause("C11.rxn_temperature", \A j \in DOMAIN e.rx.t : e.rx.t[j] = e.T)
          \cup Clause("C11.rxn_energy", REq(e.rx.en, EnergyIn(s.u, b, e.x)))

-----------------------------------------------------------------------------
\* tables: rows of [x |-> reaction, en, cost, added, sep, nel, hr, hp]
SideEnts(x, sg) == {x.e[j] : j \in {k \in DOMAIN x.e : RSign(x.co[k]) = sg}}
MaxI(S) == CHOOSE m \in S : \A n \in S : n <= m
Elems(u, x) == UNION {ElemsOf(u.ents[x.e[j]].c) : j \in DOMAIN x.e}
JudgeTable(s, e) ==
  LET a == s.regs[e.i] u == s.u
      rx == [k \in DOMAIN e.rows |-> e.rows[k].x]
      th == [k \in DOMAIN rx |-> Thermo(u, a, rx[k])]
      cost(k) == LET z == EnergyPerAtomIn(u, a, rx[k]) IN RAdd(RMul(e.w[1], z), RMul(e.w[2], RInt(rx[k].d)))
  IN IF e.exc # "" THEN {"C34.no_exception:" \o e.exc}
     ELSE Clause("C34.rows_are_the_reactions", SameBag(rx, a.rx))
          \cup Clause("C34.energy", \A k \in DOMAIN rx : REq(e.rows[k].en, EnergyPerAtomIn(u, a, rx[k])))
          \cup Clause("C34.cost", \A k \in DOMAIN rx : REq(e.rows[k].cost, cost(k)))
          \cup Clause("C34.sorted_by_cost", \A k \in 1..(Len(rx) - 1) : e.rows[k].uc <= e.rows[k + 1].uc)
          \cup Clause("C34.data_column", \A k \in DOMAIN rx : e.rows[k].tag = rx[k].d /\ e.rows[k].z = rx[k].d % 3)
          \* energies above hull (meV) and numbers of phases not known from experiment, for each side
          \cup Clause("C34.energies_above_hull", e.hulls => \A k \in DOMAIN rx :
                  /\ e.rows[k].hr = MaxI({e.eh[i] : i \in SideEnts(rx[k], -1)})
                  /\ e.rows[k].hp = MaxI({e.eh[i] : i \in SideEnts(rx[k], 1)}))
          \cup Clause("C34.theoretical_phases", e.lin => \A k \in DOMAIN rx :
                  /\ e.rows[k].tr = Cardinality({i \in SideEnts(rx[k], -1) : u.ents[i].b % 2 = 1})
                  /\ e.rows[k].tp = Cardinality({i \in SideEnts(rx[k], 1) : u.ents[i].b % 2 = 1}))
          \cup Clause("C34.added_elements", (e.target # <<>>) => \A k \in DOMAIN rx :
                  SetOf(e.rows[k].added) = (Elems(u, rx[k]) \cup OpenElems(th[k])) \ ElemsOf(e.target))
          \cup Clause("C34.separable", e.seps => \A k \in DOMAIN rx :
                  e.rows[k].sep = Separable(th[k], e.target, SetOf(e.gases)))
          \cup Clause("C34.max_precursor_elements", \A k \in DOMAIN rx :
                  e.rows[k].nel = (LET S == {Cardinality(ElemsOf(f)) : f \in Reactants(u, rx[k])} IN CHOOSE m \in S : \A n \in S : n <= m))
          \cup Clause("C34.costs_in_order_of_iteration", Len(e.costs) = Len(e.iter)
                  /\ \A k \in DOMAIN e.iter : REq(e.costs[k], RAdd(RMul(e.w[1], EnergyPerAtomIn(u, a, e.iter[k])), RMul(e.w[2], RInt(e.iter[k].d)))))

Apply(s, e) ==
  CASE e.op = "universe" -> [st |-> [u |-> [ents |-> e.ents, en |-> e.en], regs |-> <<>>], fails |-> {}]
    [] e.op = "new" -> JudgeNew(s, e)
    [] e.op = "set" -> JudgeOp(s, e)
    [] e.op = "rxntemp" -> [st |-> s, fails |-> JudgeRxnTemp(s, e)]
    [] e.op = "table" -> [st |-> s, fails |-> JudgeTable(s, e)]

Init == c \in 1..Len(Trace) /\ l = 1 /\ st = 0
Next == /\ l <= Len(Trace[c].ev)
        /\ LET r == Apply(st, Trace[c].ev[l]) IN st' = r.st /\ Report(c, l, r.fails)
        /\ l' = l + 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, l, st>>
=============================================================================
