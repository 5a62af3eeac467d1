------------------------------- MODULE Store -------------------------------
(* Objects and the documents they are saved to. What an object answers is a *)
(* function of its value; a value is where the object came from and what    *)
(* was done to it since. Saving gives a document with the value, loading an *)
(* object with the value of the document; neither changes anything else.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Born(k) == <<k>>
Done(v, what) == Append(v, what)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
=============================================================================
