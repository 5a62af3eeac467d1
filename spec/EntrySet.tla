----------------------------- MODULE EntrySet -----------------------------
(* Entry sets. An entry is a phase x of a universe u at a temperature:      *)
(*   u[x] = [c: composition per formula unit, m: formula units, e, s:       *)
(*           energy per atom at temperature 0 and its slope, f: fixed]      *)
(* energies in units; the energy per atom at temperature t is e + s * t.    *)
(* A set is [S: phases, t: temperature].                                    *)
EXTENDS Hull
CPhase(u) == [x \in DOMAIN u |-> u[x].c]
PerAtom(u, x, t) == u[x].e + u[x].s * t
EPhase(u, t) == [x \in DOMAIN u |-> PerAtom(u, x, t) * NAt(u[x].c)]
Chemsys(u, S) == UNION {ElsOf(u[x].c) : x \in S}
MinEntries(u, S, t, f) == {x \in S : u[x].c = f /\ \A y \in S : u[y].c = f => PerAtom(u, x, t) <= PerAtom(u, y, t)}
SubsetIn(u, S, els) == {x \in S : ElsOf(u[x].c) \subseteq els}
\* energy above the hull per atom
AboveHull(u, S, t, x) == LET a == Above(CPhase(u), EPhase(u, t), S, x) IN RDiv(a, RInt(NAt(u[x].c)))
HullPerAtom(u, S, t, v) == RDiv(HullE(CPhase(u), EPhase(u, t), S, v), RInt(NAt(v)))
\* filtering by energy above the hull: phases on the boundary may be kept or not, unless they
\* are the ones that make the hull
Twins(u, S, t, x) == {y \in S : u[y].c = u[x].c /\ PerAtom(u, y, t) = PerAtom(u, x, t)}
MakesHull(u, S, t, x) == Vertex(CPhase(u), EPhase(u, t), S \ (Twins(u, S, t, x) \ {x}), x)
\* all that filtering needs to know of a phase
HullInfo(u, S, t) == TLCEval([x \in S |-> [a |-> AboveHull(u, S, t, x), mk |-> MakesHull(u, S, t, x), one |-> Twins(u, S, t, x) = {x}, min |-> x \in MinEntries(u, S, t, u[x].c)]])
SureForm(H, tol, x) == RLt(H[x].a, tol) \/ (H[x].a = tol /\ tol = R0 /\ H[x].mk)
Sure(H, tol, x) == RLt(H[x].a, tol) \/ (H[x].a = tol /\ tol = R0 /\ H[x].one /\ H[x].mk)
FilterOkH(u, S, H, tol, poly, F) ==
  /\ \A x \in F : RLe(H[x].a, tol)
  /\ \A x \in S : SureForm(H, tol, x) => \E y \in F : u[y].c = u[x].c
  /\ IF poly THEN \A x \in S : Sure(H, tol, x) => x \in F
     ELSE /\ \A x, y \in F : u[x].c = u[y].c => x = y
          /\ \A x \in F : H[x].min
FilterOk(u, S, t, tol, poly, F) == F \subseteq S /\ FilterOkH(u, S, HullInfo(u, S, t), tol, poly, F)
\* temperatures: entries that exist only in a range are left out beyond it
AtTemperature(u, S, t, tmax) == {x \in S : u[x].f \/ (t >= 0 /\ t <= tmax)}
=============================================================================
