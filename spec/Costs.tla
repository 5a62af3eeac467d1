------------------------------- MODULE Costs -------------------------------
(* Cost functions and calculators. Numbers are integers in 1e-5 units.      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
\* softplus(y) = ln(1 + exp(y)) at y = -10, -10 + 1/16, .., 10
SoftTab == <<
  5, 5, 5, 5, 6, 6, 7, 7, 7, 8, 8, 9, 10, 10, 11, 12, 12, 13, 14, 15,
  16, 17, 18, 19, 20, 22, 23, 25, 26, 28, 30, 32, 34, 36, 38, 40, 43, 46, 49, 52,
  55, 59, 63, 67, 71, 76, 80, 86, 91, 97, 103, 110, 117, 125, 133, 141, 150, 160, 170, 181,
  193, 205, 219, 233, 248, 264, 280, 299, 318, 338, 360, 383, 408, 434, 462, 492, 523, 557, 593, 631,
  672, 715, 761, 809, 861, 917, 976, 1038, 1105, 1176, 1251, 1331, 1416, 1507, 1603, 1706, 1815, 1931, 2054, 2185,
  2325, 2473, 2630, 2797, 2975, 3164, 3365, 3578, 3804, 4045, 4300, 4571, 4859, 5164, 5488, 5832, 6197, 6584, 6994, 7428,
  7889, 8377, 8894, 9441, 10021, 10634, 11282, 11968, 12693, 13459, 14268, 15121, 16022, 16973, 17974, 19030, 20141, 21311, 22541, 23834,
  25193, 26619, 28115, 29683, 31326, 33046, 34844, 36724, 38687, 40735, 42870, 45094, 47408, 49813, 52312, 54905, 57594, 60379, 63260, 66239,
  69315, 72489, 75760, 79129, 82594, 86155, 89812, 93563, 97408, 101344, 105370, 109485, 113687, 117974, 122344, 126796, 131326, 135933, 140615, 145369,
  150193, 155084, 160041, 165061, 170141, 175280, 180474, 185723, 191022, 196371, 201768, 207209, 212693, 218218, 223782, 229384, 235021, 240691, 246394, 252127,
  257889, 263678, 269494, 275334, 281197, 287082, 292988, 298914, 304859, 310821, 316800, 322795, 328804, 334828, 340865, 346914, 352975, 359047, 365130, 371223,
  377325, 383435, 389554, 395681, 401815, 407956, 414103, 420257, 426416, 432581, 438751, 444926, 451105, 457288, 463476, 469667, 475861, 482059, 488261, 494465,
  500672, 506881, 513093, 519307, 525523, 531742, 537962, 544184, 550408, 556633, 562860, 569088, 575318, 581549, 587780, 594014, 600248, 606483, 612719, 618955,
  625193, 631431, 637670, 643910, 650150, 656391, 662633, 668875, 675117, 681360, 687603, 693847, 700091, 706336, 712580, 718826, 725071, 731317, 737563, 743809,
  750055, 756302, 762549, 768796, 775043, 781290, 787538, 793786, 800034, 806282, 812530, 818778, 825026, 831275, 837523, 843772, 850020, 856269, 862518, 868767,
  875016, 881265, 887514, 893763, 900012, 906262, 912511, 918760, 925010, 931259, 937508, 943758, 950007, 956257, 962507, 968756, 975006, 981255, 987505, 993755,
  1000005>>
Temps == <<50, 100, 200, 273, 300, 450, 600, 1000, 1500, 3000>>
\* ln(273 / t) for these temperatures
LnRatio == <<169745, 100430, 31115, 0, -9431, -49978, -78746, -129828, -170375, -239690>>
Abs(x) == IF x < 0 THEN -x ELSE x
NearBy(a, b, t) == Abs(a - b) <= t
\* between the points of the table: linear (off by less than 13 units)
Soft(y) == IF y >= 1000000 THEN y ELSE IF y <= -1000000 THEN 0 ELSE
  LET k == (y + 1000000) \div 6250 f == (y + 1000000) % 6250
  IN IF k = 320 THEN SoftTab[321] ELSE SoftTab[k + 1] + ((SoftTab[k + 2] - SoftTab[k + 1]) * f) \div 6250
\* the cost is ln(1 + 273 / t * exp(x))
Softplus(x, t) == Soft(x + LnRatio[CHOOSE i \in DOMAIN Temps : Temps[i] = t])
-----------------------------------------------------------------------------
\* A reaction object is a record [r: number of its reaction, data: set of <<key, value>>]; a world has
\* for every reaction its attributes (set of <<name, value>>)
Has(S, k) == \E p \in S : p[1] = k
Get(S, k) == (CHOOSE p \in S : p[1] = k)[2]
\* data of the reaction come before its attributes; a parameter found in neither is an error
Missing(attrs, o, ps) == \E i \in DOMAIN ps : ~Has(o.data, ps[i]) /\ ~Has(attrs[o.r], ps[i])
Param(attrs, o, k) == IF Has(o.data, k) THEN Get(o.data, k) ELSE Get(attrs[o.r], k)
\* weights in quarters
Total(attrs, o, f) == FoldFunctionOnSet(+, 0, [i \in DOMAIN f.p |-> f.w[i] * Param(attrs, o, f.p[i])], DOMAIN f.p) \div 4
CostOf(attrs, o, f) == IF f.kind = "softplus" THEN Softplus(Total(attrs, o, f), f.t) ELSE Total(attrs, o, f)
Decorated(o, k, v) == [o EXCEPT !.data = {p \in @ : p[1] # k} \cup {<<k, v>>}]
-----------------------------------------------------------------------------
\* aggregate of the distances between reactants and products, and between products
PairsOf(r) == {<<r.R[i], r.P[j]>> : i \in DOMAIN r.R, j \in DOMAIN r.P}
PairSeq(r) == LET n == Len(r.R) m == Len(r.P) IN
  FoldLeft(LAMBDA s, i : s \o [j \in 1..m |-> <<r.R[i], r.P[j]>>], <<>>, [i \in 1..n |-> i])
  \o FoldLeft(LAMBDA s, i : s \o [j \in 1..(m - i) |-> <<r.P[i], r.P[i + j]>>], <<>>, [i \in 1..m |-> i])
Distances(r, dist, off) == LET q == TLCEval(PairSeq(r)) IN TLCEval([k \in DOMAIN q |-> dist[q[k][1]][q[k][2]] + off[q[k][1]] + off[q[k][2]]])
SumOf(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
MaxOf(q) == FoldLeft(LAMBDA a, b : IF a < b THEN b ELSE a, 0, q)
Aggregate(agg, q) == CASE agg = "sum" -> SumOf(q) [] agg = "max" -> MaxOf(q) [] agg = "mean" -> SumOf(q) \div Len(q)
                       [] agg = "min" -> FoldLeft(LAMBDA a, b : IF b < a THEN b ELSE a, q[1], q)
=============================================================================
