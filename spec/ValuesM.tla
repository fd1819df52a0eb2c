------------------------------ MODULE ValuesM ------------------------------
(***************************************************************************)
(* Variables holding values made of components (V01): a value is a tuple,  *)
(* copying and assigning copy the tuple, two values are equal iff their    *)
(* tuples are.  Nothing is shared between variables.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLE val                      \* variable -> tuple of components

Make(i, v) == val' = [val EXCEPT ![i] = v]
Copy(i, j) == val' = [val EXCEPT ![i] = val[j]]      \* construction and assignment alike; i = j allowed
Set(i, k, x) == val' = [val EXCEPT ![i] = [@ EXCEPT ![k] = x]]

EqMatrix(v, Same(_, _)) == [i \in DOMAIN v |-> [j \in DOMAIN v |-> Same(v[i], v[j])]]
=============================================================================
