------------------------------ MODULE Network ------------------------------
(* A reaction network over phases (integers). rs is a sequence of reactions *)
(* [r, p, w]: reactant phases, product phases, cost. pre: precursor phases  *)
(* ({} = not set); tgt: target phase (0 = not set).                         *)
EXTENDS Paths

RNodes(rs) == {<<"R", rs[i].r>> : i \in DOMAIN rs}
PNodes(rs) == {<<"P", rs[i].p>> : i \in DOMAIN rs}
Nodes(rs, pre, tgt) == RNodes(rs) \cup PNodes(rs)
                       \cup (IF pre = {} THEN {} ELSE {<<"S", pre>>}) \cup (IF tgt = 0 THEN {} ELSE {<<"T", {tgt}>>})
Edge(s, t, k, i) == [s |-> s, t |-> t, k |-> k, i |-> i]
RxnEdges(rs) == {Edge(<<"R", rs[i].r>>, <<"P", rs[i].p>>, "rxn", i) : i \in DOMAIN rs}
\* a product node leads on, for free, to what can be made from its phases (and the precursors)
Leads(p, r, pre) == p = r \/ (pre # {} /\ r \subseteq p \cup pre /\ ~(r \subseteq pre))
LoopEdges(rs, pre) == {Edge(x[1], x[2], "loop", 0) : x \in {x \in PNodes(rs) \X RNodes(rs) : Leads(x[1][2], x[2][2], pre)}}
PreEdges(rs, pre) == IF pre = {} THEN {} ELSE {Edge(<<"S", pre>>, n, "pre", 0) : n \in {n \in RNodes(rs) : n[2] \subseteq pre}}
TgtEdges(rs, tgt) == IF tgt = 0 THEN {} ELSE {Edge(n, <<"T", {tgt}>>, "tgt", 0) : n \in {n \in PNodes(rs) : tgt \in n[2]}}
\* the network with these precursors and this target
Ideal(rs, pre, tgt) == [nodes |-> Nodes(rs, pre, tgt),
                        edges |-> RxnEdges(rs) \cup LoopEdges(rs, pre) \cup PreEdges(rs, pre) \cup TgtEdges(rs, tgt)]

-----------------------------------------------------------------------------
\* the same graph, maintained step by step
Built(rs) == [nodes |-> RNodes(rs) \cup PNodes(rs), edges |-> RxnEdges(rs) \cup LoopEdges(rs, {})]
DropNode(g, kind) == [nodes |-> {n \in g.nodes : n[1] # kind}, edges |-> {e \in g.edges : e.s[1] # kind /\ e.t[1] # kind}]
DropLoops(g) == [g EXCEPT !.edges = {e \in @ : e.k # "loop"}]
PutPrecursors(rs, g, pre) == LET h == DropLoops(DropNode(g, "S")) IN
   [nodes |-> h.nodes \cup {<<"S", pre>>}, edges |-> h.edges \cup PreEdges(rs, pre) \cup LoopEdges(rs, pre)]
PutTarget(rs, g, tgt) == LET h == DropNode(g, "T") IN
   [nodes |-> h.nodes \cup {<<"T", {tgt}>>}, edges |-> h.edges \cup TgtEdges(rs, tgt)]

-----------------------------------------------------------------------------
\* path finding: cheapest loopless paths from the precursor to the target node
Ix(ns) == TLCEval([n \in {ns[i] : i \in DOMAIN ns} |-> CHOOSE i \in DOMAIN ns : ns[i] = n])
Numbered(rs, g, ns) == LET ix == Ix(ns) es == SetToSeq(g.edges)
                       IN [n |-> Len(ns), e |-> TLCEval([j \in DOMAIN es |-> <<ix[es[j].s], ix[es[j].t], IF es[j].k = "rxn" THEN rs[es[j].i].w ELSE 0>>])]
\* node path of a sequence of reactions
NodePath(rs, pre, tgt, q, ix) == TLCEval(<<ix[<<"S", pre>>]>>
    \o [j \in 1..(2 * Len(q)) |-> LET x == rs[q[(j + 1) \div 2]] IN IF j % 2 = 1 THEN ix[<<"R", x.r>>] ELSE ix[<<"P", x.p>>]]
    \o <<ix[<<"T", {tgt}>>]>>)
\* a sequence of reactions that can be carried out: each uses precursors and products of the step before
Executable(rs, pre, tgt, q) ==
  /\ Len(q) >= 1 /\ rs[q[1]].r \subseteq pre
  /\ \A i \in 2..Len(q) : rs[q[i]].r \subseteq pre \cup rs[q[i - 1]].p
  /\ tgt \in rs[q[Len(q)]].p
TotalCost(rs, q) == FoldLeft(LAMBDA a, i : a + rs[i].w, 0, q)
=============================================================================
