------------------------------ MODULE EntryDB ------------------------------
(* Queries to a database of computed entries. A document is a record        *)
(* [id, c: counts of the elements of the world in its reduced formula,      *)
(*  gga, ggau: whether it holds an entry of that kind].                     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
ElemsOf(c) == {i \in DOMAIN c : c[i] > 0}
\* entries of a document: the one with U, else the one without, else none
Gives(d) == IF d.ggau THEN {<<d.id, "GGA+U">>} ELSE IF d.gga THEN {<<d.id, "GGA">>} ELSE {}
EntriesFor(db, D) == UNION {Gives(db[i]) : i \in D}
\* all documents within a chemical system (set of elements)
InSystem(db, S) == {i \in DOMAIN db : ElemsOf(db[i].c) \subseteq S}
Proportional(a, b) == ElemsOf(a) = ElemsOf(b) /\ \A i, j \in DOMAIN a : a[i] * b[j] = a[j] * b[i]
\* search terms: an identifier; a chemical system, and a formula, in which one element may be any of a set
Matches(d, t) ==
  CASE t.k = "id" -> d.id = t.id
    [] t.k = "system" -> \E x \in t.any \cup (IF t.any = {} THEN {0} ELSE {}) : x \notin t.els /\ ElemsOf(d.c) = t.els \cup ({x} \ {0})
    [] t.k = "formula" -> IF t.any = {} THEN Proportional(d.c, t.c)
                          ELSE \E x \in t.any : t.c[x] = 0 /\ Proportional(d.c, [t.c EXCEPT ![x] = t.n])
Search(db, terms) == {i \in DOMAIN db : \E k \in DOMAIN terms : Matches(db[i], terms[k])}
=============================================================================
