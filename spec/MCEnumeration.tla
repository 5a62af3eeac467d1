--------------------------- MODULE MCEnumeration ---------------------------
(* Every request over a small binary system (with a polymorph and an open   *)
(* element) and a range of energies: laws of the enumeration specification. *)
EXTENDS Enumeration
CONSTANTS ES
Small == {-4, 1}
Large == {-5, -2, -1, 0, 1}
VARIABLES f, u, k
vars == <<f, u, k>>
\* 1 = A, 2 = B2, 3 = AB, 4 = AB (polymorph), 5 = A2B
C == <<<<1, 0>>, <<0, 2>>, <<1, 1>>, <<1, 1>>, <<2, 1>>>>
Subs == {{}, {1}, {3}, {1, 3}, {1, 2}}
Base == [open |-> {}, P |-> {}, T |-> {}, hasP |-> FALSE, hasT |-> FALSE, xp |-> FALSE, xt |-> FALSE, n |-> 1, sys |-> {}, oel |-> {}, mu |-> -1]
Init == u = [c |-> C, en |-> <<0, 0, -4, -3, -4>>] /\ f = Base /\ k = 0
\* choose the entries' energies, then what is asked for, then how
Energies == k = 0 /\ \E x, y \in ES : u' = [u EXCEPT !.en = <<0, 0, x, x + 1, y>>] /\ UNCHANGED f
Phases == k = 1 /\ \E P \in Subs, T \in {{}, {3}, {5}, {3, 5}}, o \in {{}, {2}} :
            f' = [f EXCEPT !.P = P \ o, !.T = T, !.hasP = (P \ o # {}), !.hasT = (T # {}), !.open = o, !.oel = IF o = {} THEN {} ELSE {2}] /\ UNCHANGED u
Options == k = 2 /\ \E xp, xt \in BOOLEAN, n \in 1..2 : f' = [f EXCEPT !.xp = xp, !.xt = xt, !.n = n] /\ UNCHANGED u
Next == k' = k + 1 /\ (Energies \/ Phases \/ Options)
Spec == Init /\ [][Next]_vars
All == Combinatorial(u, f)
Free == [f EXCEPT !.hasP = FALSE, !.hasT = FALSE]
Sound == \A ab \in All : SidesOk(u, f, ab[1], ab[2])
Reversible == (~f.hasP /\ ~f.hasT) => \A ab \in All : <<ab[2], ab[1]>> \in All
MonotoneN == All \subseteq Combinatorial(u, [f EXCEPT !.n = @ + 1])
Restricting == All = {ab \in Combinatorial(u, Free) : ReactantsOk(f, ab[1] \ f.open) /\ ProductsOk(f, ab[2] \ f.open)}
ExclusiveIsStronger == f.hasP /\ f.xp => All \subseteq Combinatorial(u, [f EXCEPT !.xp = FALSE])
EnergyFree == All = Combinatorial([u EXCEPT !.en = [i \in DOMAIN @ |-> 0]], f)
\* energy minimization
G == Ground(u, DOMAIN u.c)
Kinks(a, b) == LET D == TLCEval(Cands(u, f, G, a, b)) IN {x \in D : IsKink(x.pt, D)}
Pairs == PairsOf(u, f)
\* both ends of the line are decided by at least one candidate
EndsCovered == \A ab \in Pairs : LET K == Kinks(ab[1], ab[2]) IN (\E x \in K : x.pt[2] = 0) /\ (ab[1] # ab[2] => \E x \in K : x.pt[1] = 0)
\* predicted reactions are reactions (of some size) and never cost energy
KinksAreReactions == \A ab \in Pairs : \A x \in Kinks(ab[1], ab[2]) : x.A = x.B \/
    (x.pt[3] <= 0 /\ (f.open = {} => <<x.A, x.B>> \in Combinatorial(u, [Free EXCEPT !.n = 3])))
\* no reaction between the same phases at the same ratio releases more
Optimal == \A ab \in Pairs : LET D == TLCEval(Cands(u, f, G, ab[1], ab[2])) IN
    \A x \in {x \in D : IsKink(x.pt, D)} : \A y \in D : SameRay(x.pt, y.pt) => x.pt[3] * (y.pt[1] + y.pt[2]) <= y.pt[3] * (x.pt[1] + x.pt[2])
\* the envelope does not depend on the order of the two reactants
Symmetric == \A ab \in Pairs : {<<x.A, x.B>> : x \in Kinks(ab[1], ab[2])} = {<<x.A, x.B>> : x \in Kinks(ab[2], ab[1])}
=============================================================================
