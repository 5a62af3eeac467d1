------------------------------ MODULE MCCosts ------------------------------
(* Reaction objects that are evaluated, decorated and edited in any order:  *)
(* values depend on nothing but the object, decorated objects do not share  *)
(* data with the one they were made from. Plus, checked once: the softplus  *)
(* table is increasing, positive, convex and between 0 and y.               *)
EXTENDS Costs
CONSTANTS MaxObjs, MaxOps
VARIABLES objs, born, n
vars == <<objs, born, n>>
Keys == {"a", "c"}
Vals == {-100000, 0, 100000}
Attrs == << {<<"energy", -200000>>}, {<<"energy", 100000>>, <<"c", 0>>} >>
Calc(r) == IF r = 1 THEN 50000 ELSE 0
F == [kind |-> "softplus", t |-> 300, p |-> <<"c", "energy">>, w |-> <<4, 2>>]
Init == objs = << [r |-> 1, data |-> {}], [r |-> 2, data |-> {}] >> /\ born = <<0, 0>> /\ n = 0
Decorate == \E i \in DOMAIN objs : Len(objs) < MaxObjs /\ objs' = Append(objs, Decorated(objs[i], "c", Calc(objs[i].r))) /\ born' = Append(born, i)
Edit == \E i \in DOMAIN objs, k \in Keys, v \in Vals : objs' = [objs EXCEPT ![i] = Decorated(@, k, v)] /\ UNCHANGED born
Next == n < MaxOps /\ n' = n + 1 /\ (Decorate \/ Edit)
Spec == Init /\ [][Next]_vars
OneValuePerKey == \A i \in DOMAIN objs : \A p, q \in objs[i].data : p[1] = q[1] => p = q
\* one step changes one object at most
Isolated == [][\A i, j \in DOMAIN objs : (objs'[i] # objs[i] /\ objs'[j] # objs[j]) => i = j]_vars
\* equal objects cost the same
Pure == \A i, j \in DOMAIN objs : objs[i] = objs[j] => Missing(Attrs, objs[i], F.p) = Missing(Attrs, objs[j], F.p)
CostsKnown == \A i \in DOMAIN objs : ~Missing(Attrs, objs[i], F.p) => CostOf(Attrs, objs[i], F) > 0
MissingIsReported == \A i \in DOMAIN objs : Missing(Attrs, objs[i], F.p) <=> (objs[i].r = 1 /\ ~Has(objs[i].data, "c"))
More == \A i, j \in DOMAIN objs : ~Missing(Attrs, objs[i], F.p) /\ ~Missing(Attrs, objs[j], F.p) =>
          (Total(Attrs, objs[i], F) < Total(Attrs, objs[j], F) => CostOf(Attrs, objs[i], F) < CostOf(Attrs, objs[j], F))
ASSUME \A k \in 1..320 : SoftTab[k + 1] > SoftTab[k] \/ k < 30
ASSUME \A k \in 1..319 : SoftTab[k + 2] - SoftTab[k + 1] >= SoftTab[k + 1] - SoftTab[k] - 1
ASSUME \A k \in 1..321 : SoftTab[k] > 0 /\ SoftTab[k] >= 6250 * (k - 161)
ASSUME \A k \in 0..160 : Abs(SoftTab[161 + k] - SoftTab[161 - k] - 6250 * k) <= 1  \* softplus(y) - softplus(-y) = y
ASSUME SoftTab[161] = 69315 /\ \A k \in 1..305 : NearBy(Soft((k - 161) * 6250 + 3125) - (SoftTab[k] + SoftTab[k + 1]) \div 2, 0, 1)
\* doubling: softplus(2y) = ln(1 + e^2y), with (1 + e^y)^2 = 1 + e^2y + 2 e^y, so softplus(2y) <= 2 softplus(y) <= softplus(2y) + ln 2
ASSUME \A k \in 81..241 : LET y == (k - 161) * 6250 IN Soft(2 * y) <= 2 * Soft(y) + 1 /\ 2 * Soft(y) <= Soft(2 * y) + 69315 + 1
=============================================================================
