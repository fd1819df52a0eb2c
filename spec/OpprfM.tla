------------------------------- MODULE OpprfM -------------------------------
(***************************************************************************)
(* Threshold evaluation (R01-R04).  The client walks over the bits of its  *)
(* input from the highest to the lowest; at each level it holds the key of *)
(* the relation between the bits seen so far and those of the threshold.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Rels == {"lt", "eq", "gt"}
\* Relation of the prefixes after one more bit b of the input and t of the threshold.
StepRel(rel, b, t) == IF rel # "eq" THEN rel ELSE IF b < t THEN "lt" ELSE IF b > t THEN "gt" ELSE "eq"
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
BitOf(v, i) == (v \div Pow2(i)) % 2
\* Relations a client can be in once levels L-1 .. i have been processed.
RECURSIVE Reachable(_, _, _)
Reachable(theta, L, i) ==
  IF i = L THEN {"eq"} ELSE {StepRel(r, b, BitOf(theta, i)) : r \in Reachable(theta, L, i + 1), b \in {0, 1}}
Compare(x, y) == IF x < y THEN "lt" ELSE IF x = y THEN "eq" ELSE "gt"
=============================================================================
