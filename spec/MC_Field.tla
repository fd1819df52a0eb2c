------------------------------ MODULE MC_Field ------------------------------
(* All programs over two registers of a small field; every transition is printed for replay on the real templates. *)
EXTENDS FieldM, Json
CONSTANT P
Ints == {-2 * P - 1, -P - 1, -P, -1, 0, 1, 2, P - 1, P, P + 1, P * P + 1}
VARIABLE act

R == 1..2
A1(op) == {[op |-> op, ix |-> <<d, i>>, k |-> 0] : d \in R, i \in R}
A2(op) == {[op |-> op, ix |-> <<d, i, j>>, k |-> 0] : d \in R, i \in R, j \in R}
Acts ==
  {[op |-> "load", ix |-> <<d>>, k |-> v] : d \in R, v \in Ints}
  \cup {[op |-> "muleqi", ix |-> <<d>>, k |-> v] : d \in R, v \in Ints}
  \cup {[op |-> "muli", ix |-> <<d, i>>, k |-> v] : d \in R, i \in R, v \in Ints}
  \cup UNION {A1(o) : o \in {"copy", "assign", "swapcopy", "addeq", "subeq", "muleq", "diveq", "neg", "sq", "inv", "eq", "eqmod"}}
  \cup UNION {A2(o) : o \in {"add", "sub", "mul", "div"}}

Init == FInit(P, 2) /\ act = [op |-> "init", ix |-> <<>>, k |-> 0]
Next == \E a \in Acts : Step(a) /\ act' = a
Spec == Init /\ [][Next]_<<fvars, act>>
View == reg
Emit == PrintT(ToJson([pre |-> reg, act |-> act', post |-> reg', ret |-> ret']))
=============================================================================
