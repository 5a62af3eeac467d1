------------------------------ MODULE Entries ------------------------------
(* Temperature-dependent entries and the choice of entries for phases.      *)
(* Energies are integers (micro-eV). An entry is                            *)
(*   [k: kind ("gibbs", "nist", "freed", "interp"), m: formula units,       *)
(*    adj: sequence of [k: "const" | "co2" | "deg", v], T]                  *)
EXTENDS Integers, Sequences, FiniteSets
Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b, tol) == Abs(a - b) <= tol
\* Temperatures are in tenths of a kelvin.
\* linear interpolation of a table of values at lo, lo + 100 K, ...
Frac(d, r) == ((d \div 100) * r) \div 10 + ((d % 100) * r) \div 1000     \* d * r / 1000
Interp(tab, lo, T) ==
  LET k == (T - lo) \div 1000 r == (T - lo) % 1000
  IN IF r = 0 THEN tab[k + 1] ELSE tab[k + 1] + Frac(tab[k + 2] - tab[k + 1], r)
InTable(tab, lo, T) == T >= lo /\ T <= lo + 1000 * (Len(tab) - 1)
\* kT ln p per three atoms at p = 0.0004 atm, in nano-eV per K
CO2PerK == -674198
AdjE(a, T) == CASE a.k = "const" -> a.v
                [] a.k = "co2" -> ((CO2PerK * (T \div 10)) \div 1000 + (CO2PerK * (T % 10)) \div 10000) * (a.v \div 3)     \* v: number of atoms
                [] a.k = "deg" -> (a.v * T) \div 10                      \* v: micro-eV per K
SumAdj(adj, T) == LET F[n \in 0..Len(adj)] == IF n = 0 THEN 0 ELSE F[n - 1] + AdjE(adj[n], T) IN F[Len(adj)]
ValidT(x, T) == CASE x.k = "gibbs" -> T >= 3000 /\ T <= 20000
                  [] x.k \in {"nist", "freed"} -> IF x.dep THEN TRUE ELSE InTable(x.tab, x.lo, T)
                  [] x.k = "interp" -> TRUE
(* Computed entries: formation energy at 298 K, plus the descriptor value at *)
(* T for every atom, minus the tabulated chemical potentials of the          *)
(* elements; nothing is added to elements. x.els: sequence of [n, tab].      *)
ElemSum(els, T) == LET F[i \in 0..Len(els)] == IF i = 0 THEN 0 ELSE F[i - 1] + els[i].n * Interp(els[i].tab, 3000, T) IN F[Len(els)]
GibbsE(x, T, desc) == x.form + (IF Len(x.els) = 1 THEN 0 ELSE desc - ElemSum(x.els, T))
\* the energy at T: x.base gives the value without adjustments
Convert(x, T) == IF x.k = "interp" THEN x ELSE [x EXCEPT !.T = T]

-----------------------------------------------------------------------------
(* Which entries represent the phases of a list of computed entries.        *)
(* inp: sequence of [f: formula, el: is an element, e: energy per atom,     *)
(*  src: sources with data for f at the temperature (set)]                  *)
Sources(x, opts) == x.src \cap opts
RefsOf(inp) == {i \in DOMAIN inp : inp[i].el /\ \A j \in DOMAIN inp : inp[j].f = inp[i].f => inp[i].e <= inp[j].e}
\* members: <<"exp", source, formula>> or <<"comp", index>>; for elements one of the lowest
\* entries (any of them when tied)
ExpMembers(inp, opts) == {<<"exp", s, inp[i].f>> : i \in DOMAIN inp, s \in {"nist", "freed"}} 
ExpOf(inp, opts) == UNION {{<<"exp", s, inp[i].f>> : s \in Sources(inp[i], opts)} : i \in DOMAIN inp}
CompOf(inp, opts) == {i \in DOMAIN inp : Sources(inp[i], opts) = {} /\ ~inp[i].el}
ElemChoice(inp, opts) == {i \in RefsOf(inp) : Sources(inp[i], opts) = {}}
\* X: experimental members, K: indices of computed members of the result
Covers(inp, opts, X, K) ==
  /\ X = ExpOf(inp, opts)
  /\ CompOf(inp, opts) \subseteq K /\ K \subseteq CompOf(inp, opts) \cup ElemChoice(inp, opts)
  /\ \A i \in ElemChoice(inp, opts) : Cardinality({j \in K : inp[j].f = inp[i].f}) = 1
=============================================================================
