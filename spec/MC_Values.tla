----------------------------- MODULE MC_Values -----------------------------
(* All histories of three variables of K components over {0, 1}; every transition is printed for replay on each type. *)
EXTENDS ValuesM, TLC, Json, IOUtils
K == atoi(IOEnv.K)
V == 1..3
VARIABLE act
D == {0, 1}
Acts ==
  {[op |-> "make", i |-> i, args |-> a] : i \in V, a \in [1..K -> D]}
  \cup {[op |-> o, i |-> i, j |-> j] : o \in {"copy", "assign"}, i \in V, j \in V}
  \cup {[op |-> "set", i |-> i, k |-> k, arg |-> x] : i \in V, k \in 1..K, x \in D}
Do(a) ==
  CASE a.op = "make" -> Make(a.i, a.args)
    [] a.op = "copy" -> a.i # a.j /\ Copy(a.i, a.j)
    [] a.op = "assign" -> Copy(a.i, a.j)
    [] a.op = "set" -> Set(a.i, a.k, a.arg)
Init == val = [i \in V |-> [k \in 1..K |-> 0]] /\ act = [op |-> "init"]
Next == \E a \in Acts : Do(a) /\ act' = a
Spec == Init /\ [][Next]_<<val, act>>
View == val
\* Equality is an equivalence and coincides with equality of every component; only the target of an action changes.
Same(a, b) == \A k \in 1..K : a[k] = b[k]
Equivalence == LET m == EqMatrix(val, Same) IN
  \A i, j, h \in V : m[i][i] /\ m[i][j] = m[j][i] /\ (m[i][j] /\ m[j][h] => m[i][h]) /\ (m[i][j] <=> val[i] = val[j])
Independent == [][\A i \in V : i # act'.i => val'[i] = val[i]]_<<val, act>>
CopyEqual == [][act'.op \in {"copy", "assign"} => val'[act'.i] = val[act'.j]]_<<val, act>>
Emit == IF "EMIT" \in DOMAIN IOEnv THEN PrintT(ToJson([pre |-> val, act |-> act', post |-> val'])) ELSE TRUE
=============================================================================
