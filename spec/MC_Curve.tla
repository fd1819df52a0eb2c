------------------------------ MODULE MC_Curve ------------------------------
(* All programs over two point variables of a small curve; transitions are printed for replay on the real templates. *)
EXTENDS CurveM, Curves, Json, FiniteSets
VARIABLE act
C == ThisCurve
R == 1..2
Rec(op, ix, k, y) == [op |-> op, ix |-> ix, k |-> k, y |-> y]
Ks == (-C.n - 2)..(2 * C.n + 2)
Xs == -1..C.p
Acts ==
  {Rec("pt", <<d>>, P[1], P[2]) : d \in R, P \in Points(C) \ {Inf}}
  \cup {Rec(o, <<d>>, 0, 0) : o \in {"inf", "gen", "valid", "enc"}, d \in R}
  \cup {Rec(o, <<d, i>>, 0, 0) : o \in {"copy", "assign", "swapcopy", "addeq", "subeq", "dbl", "eq"}, d \in R, i \in R}
  \cup {Rec(o, <<d, i, j>>, 0, 0) : o \in {"add", "sub"}, d \in R, i \in R, j \in R}
  \cup {Rec(o, <<d, 1>>, k, 0) : o \in {"mulz", "mulf"}, d \in R, k \in Ks}
  \cup {Rec(o, <<1>>, k, 0) : o \in {"muleqz", "muleqf"}, k \in Ks}
  \cup {Rec(o, <<2>>, x, 0) : o \in {"lift", "liftn"}, x \in Xs}
  \cup {Rec("rhs", <<>>, x, 0) : x \in Xs}
  \cup {Rec("dec", <<2>>, e, 0) : e \in 0..(2 * C.p - 1)}
\* Verdicts on arbitrary coordinates do not depend on the registers: taken in one state only.
Verdicts == {Rec("validxy", <<>>, x, y) : x \in Xs, y \in Xs}

Init == CInit(C, 2) /\ act = Rec("init", <<>>, 0, 0)
Next == \/ \E a \in Acts : Step(a) /\ act' = a
        \/ reg = <<Inf, Inf>> /\ \E a \in Verdicts : Step(a) /\ act' = a
Spec == Init /\ [][Next]_<<cvars, act>>
View == reg
Emit == PrintT(ToJson([pre |-> reg, act |-> act', post |-> reg', ret |-> ret']))

\* The points generated are all the points there are, there are n of them, and PMul is repeated addition.
RECURSIVE Times2(_, _)
Times2(k, P) == IF k = 0 THEN Inf ELSE PAdd(P, Times2(k - 1, P), C)
ASSUME Points(C) = Solutions(C) /\ Cardinality(Points(C)) = C.n
ASSUME \A P \in Points(C), k \in 0..(C.n - 1) : PMul(k, P, C) = Times2(k, P) /\ PMul(k - C.n, P, C) = Times2(k, P)
                                              /\ PMulRef(k, P, C) = Times2(k, P)
ASSUME \A x \in 0..(C.p - 1) : /\ {Lift(x, C), LiftNeg(x, C)} \ {Inf} = {P \in Points(C) \ {Inf} : P[1] = x}
=============================================================================
