---------------------------- MODULE ReactionSet ----------------------------
(* Reaction sets: immutable bags of reactions over shared entries, together *)
(* with the conditions (open element, temperature) at which their energies  *)
(* are evaluated. Every operation yields a new set.                         *)
(*                                                                          *)
(*  universe u : [ents  |-> sequence of [c |-> composition, b |-> base,     *)
(*                                       t |-> temperature index],          *)
(*                en    |-> base -> temperature index -> rational energy    *)
(*                          per formula unit]                               *)
(*  reaction   : [e |-> sequence of entry numbers, co |-> coefficients,     *)
(*                d |-> tag of the attached data]                           *)
(*  set        : [rx |-> sequence of reactions (a bag), ents |-> set of     *)
(*                entry numbers, mu |-> <<>> or <<elem, chempot>>,          *)
(*                T |-> 0 (entries' own temperature) or temperature index]  *)
EXTENDS Reaction, TLC

RxKey(x) == <<{<<x.e[i], x.co[i]>> : i \in DOMAIN x.e}, x.d>>
KeySet(s) == {RxKey(s[i]) : i \in DOMAIN s}
Count(s, k) == Cardinality({i \in DOMAIN s : RxKey(s[i]) = k})
SameBag(a, b) == Len(a) = Len(b) /\ \A k \in KeySet(a) \cup KeySet(b) : Count(a, k) = Count(b, k)
SubBag(a, b) == \A k \in KeySet(a) : Count(a, k) <= Count(b, k)
EntsOf(s) == UNION {{s[i].e[j] : j \in DOMAIN s[i].e} : i \in DOMAIN s}
Select(s, P(_)) == SelectSeq(s, P)

-----------------------------------------------------------------------------
NewSet(rx, ents, mu) == [rx |-> rx, ents |-> ents, mu |-> mu, T |-> 0]
\* what a set of open reactions inherits when no open element is given
CommonMu(mus) == IF Cardinality(mus) = 1 THEN CHOOSE m \in mus : TRUE ELSE <<>>
AddRxns(s, rx) == [s EXCEPT !.rx = @ \o rx]
TempOf(u, s, e) == IF s.T = 0 THEN u.ents[e].t ELSE s.T
\* only sets over the same entries (at the same temperatures) can be combined
Combinable(u, s, t) == s.ents = t.ents /\ \A e \in s.ents : TempOf(u, s, e) = TempOf(u, t, e)
SetChempot(s, mu) == [s EXCEPT !.mu = mu]
SetTemp(s, T) == [s EXCEPT !.T = T]

\* classes of duplicates: same entries, proportional by a positive factor
CoOf(x, e) == LET j == CHOOSE j \in DOMAIN x.e : x.e[j] = e IN x.co[j]
Dup(x, y) ==
  /\ {x.e[j] : j \in DOMAIN x.e} = {y.e[j] : j \in DOMAIN y.e}
  /\ LET e0 == x.e[1]
         k == RDiv(CoOf(y, e0), CoOf(x, e0))
     IN RSign(k) > 0 /\ \A j \in DOMAIN x.e : CoOf(y, x.e[j]) = RMul(CoOf(x, x.e[j]), k)
\* exact reaction an ensured reaction refers to
SameRx(x, y) == x.e = y.e /\ x.co = y.co
Absent(s, ens) == \E i \in DOMAIN ens : \A j \in DOMAIN s.rx : ~SameRx(ens[i], s.rx[j])

\* out is an acceptable result of removing the duplicates of rx, ensuring ens
FilterSubset(rx, out) == SubBag(out, rx)
FilterCovers(rx, out) == \A i \in DOMAIN rx : \E j \in DOMAIN out : Dup(rx[i], out[j])
FilterUnique(out, ens) ==
  \A i, j \in DOMAIN out : (i # j /\ Dup(out[i], out[j])) =>
      /\ ~SameRx(out[i], out[j])
      /\ \A k \in {i, j} : \E m \in DOMAIN ens : SameRx(ens[m], out[k])
FilterEnsured(out, ens) == \A m \in DOMAIN ens : \E j \in DOMAIN out : SameRx(ens[m], out[j])
FilterOk(rx, out, ens) == FilterSubset(rx, out) /\ FilterCovers(rx, out) /\ FilterUnique(out, ens) /\ FilterEnsured(out, ens)

-----------------------------------------------------------------------------
Reactants(u, x) == {u.ents[x.e[j]].c : j \in {k \in DOMAIN x.e : RSign(x.co[k]) < 0}}
Products(u, x) == {u.ents[x.e[j]].c : j \in {k \in DOMAIN x.e : RSign(x.co[k]) > 0}}
ByReactants(u, s, fs) == LET P(x) == Reactants(u, x) \subseteq fs IN [s EXCEPT !.rx = Select(@, P)]
ByProduct(u, s, f) == LET P(x) == f \in Products(u, x) IN [s EXCEPT !.rx = Select(@, P)]

-----------------------------------------------------------------------------
\* the reaction as a thermodynamic object at the conditions of the set
Thermo(u, s, x) ==
  [comps |-> [j \in DOMAIN x.e |-> u.ents[x.e[j]].c], co |-> x.co,
   en |-> [j \in DOMAIN x.e |-> u.en[u.ents[x.e[j]].b][TempOf(u, s, x.e[j])]],
   kind |-> IF s.mu = <<>> THEN "computed" ELSE "open",
   mu |-> IF s.mu = <<>> THEN <<>> ELSE <<s.mu>>]
EnergyIn(u, s, x) == Energy(Thermo(u, s, x))
EnergyPerAtomIn(u, s, x) == EnergyPerAtom(Thermo(u, s, x))
=============================================================================
