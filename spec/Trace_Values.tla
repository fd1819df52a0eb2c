---------------------------- MODULE Trace_Values ----------------------------
(* Recorded programs over variables of one library type, and recorded lives of instances, against ValuesM. *)
EXTENDS ValuesM, Curve, TraceBase
VARIABLES type, inst              \* inst: instance -> [kind, mode, crs]
tvars == <<val, type, inst, l>>

S == Secp256r1
PrimeOf == [fp |-> S.p, fn |-> S.n, bp |-> Bn254.p, bn |-> Bn254.n]
CurveOf(t) == IF t = "pb" THEN Bn254 ELSE S
\* What the components of each type are: scalar below n, point, residue, plain integer.
Kinds == [fp |-> <<"f">>, fn |-> <<"f">>, bp |-> <<"f">>, bn |-> <<"f">>, ps |-> <<"p">>, pb |-> <<"p">>,
          crs |-> <<"p", "p", "p", "p">>, tdm |-> <<"s", "s">>, tdd |-> <<"s">>, pk |-> <<"p", "p">>, kp |-> <<"p", "p", "s">>,
          ct |-> <<"p", "p">>, ect |-> <<"p", "p">>, ekp |-> <<"p", "s">>, ckp |-> <<"p", "n">>, share |-> <<"s", "s">>,
          curve |-> <<"n", "n", "n", "n", "n">>, raw |-> <<"x", "x", "n">>]
Comp(kind, x, t) ==
  CASE kind = "f" -> NMod(x, PrimeOf[t])
    [] kind = "p" -> PMul(x, Gen(CurveOf(t)), CurveOf(t))
    [] kind = "s" -> NMod(x, S.n)
    [] kind = "x" -> NMod(x, S.p)
    [] kind = "n" -> x
Zero == "0"
\* A point given by coordinates: the third component names the curve object, "0" stands for infinity.
Norm(v, t) == IF t = "raw" /\ v[3] = Zero THEN <<Zero, Zero, Zero>> ELSE v
Comps(args, t) == Norm([k \in 1..Len(Kinds[t]) |-> Comp(Kinds[t][k], args[k], t)], t)

\* Curve objects 1 and 2 have the same parameters; each of the others differs from them in one.
CurveClass(k) == IF k = "2" THEN "1" ELSE k
Same(a, b) ==
  IF type' = "raw" THEN <<a[1], a[2], CurveClass(a[3])>> = <<b[1], b[2], CurveClass(b[3])>> ELSE a = b
Comparable == type' \notin {"ect", "ekp", "ckp", "share"}

\* The result of using a value: shows that the copy is complete (moduli, curve references).
RECURSIVE Sum(_, _)
Sum(s, c) == IF s = <<>> THEN Inf ELSE PAdd(s[1], Sum(Tail(s), c), c)
Pts(v, t) == SelectSeq([k \in 1..Len(v) |-> IF Kinds[t][k] = "p" THEN <<v[k]>> ELSE <<>>], LAMBDA x : x # <<>>)
Use(v, t) ==
  CASE t \in DOMAIN PrimeOf -> NMod(NMul(v[1], v[1]), PrimeOf[t])
    [] t \in {"ps", "pb"} -> PDbl(v[1], CurveOf(t))
    [] t \in {"crs", "pk", "kp", "ct", "ect"} -> Sum([k \in 1..(IF t = "kp" THEN 2 ELSE Len(v)) |-> v[k]], S)
    [] t \in {"ekp", "ckp"} -> PDbl(v[1], S)
    [] t \in {"tdm", "share"} -> NMod(NAdd(v[1], v[2]), S.n)
    [] t = "tdd" -> NMod(NAdd(v[1], v[1]), S.n)
    [] t = "curve" -> TRUE
    [] t = "raw" -> ""

Reported(e) ==
  /\ e.vals = val'
  /\ e.after = val'
  /\ \A i \in DOMAIN val' : e.use[i] = Use(val'[i], type')
  /\ Comparable => e.eq = EqMatrix(val', Same)

Program(e) ==
  /\ UNCHANGED <<type, inst>>
  /\ CASE e.op = "make" -> Make(e.i, Comps(e.args, type))
       [] e.op \in {"copy", "assign"} -> Copy(e.i, e.j)
       [] e.op = "set" ->
            IF type = "raw" /\ val[e.i][3] = Zero THEN UNCHANGED val      \* infinity has no coordinates to set
            ELSE Make(e.i, Norm([val[e.i] EXCEPT ![e.k] = Comp(Kinds[type][e.k], e.arg, type)], type))
  /\ Reported(e)

\* ---- instances
Put(f, i, x) == [k \in DOMAIN f \cup {i} |-> IF k = i THEN x ELSE f[k]]
Lives(e) ==
  /\ UNCHANGED <<type, val>>
  /\ CASE e.op = "new" -> inst' = Put(inst, e.i, [kind |-> e.kind, mode |-> e.mode, crs |-> e.crs])
       [] e.op = "import" -> inst' = Put(inst, e.i, [kind |-> "dmhe", mode |-> "any", crs |-> inst[e.j].crs]) /\ e.crs = inst[e.j].crs
       [] e.op = "near" -> \A s \in {[k \in 1..4 |-> IF k = e.k THEN e.pt ELSE inst[e.j].crs[k]]} :      \* the strings differ in one component at most
                             /\ inst' = Put(inst, e.i, [kind |-> e.kind, mode |-> "any", crs |-> s]) /\ e.crs = s
       [] e.op \in {"dup", "assign"} -> inst' = Put(inst, e.i, inst[e.j]) /\ e.crs = inst[e.j].crs
       [] e.op = "drop" -> inst' = [k \in DOMAIN inst \ {e.i} |-> inst[k]]
       [] e.op = "use" -> LET I == inst[e.i] IN
            /\ inst' = inst
            /\ e.crs = I.crs /\ e.after = I.crs
            /\ e.ok
            /\ \A k \in 1..Len(e.got) : e.got[k] = e.m
            /\ I.mode = "messy" /\ I.kind \in {"dme", "dmhe"} => e.messy = <<1, 0>>

TInit == l = 1 /\ val = <<>> /\ type = "" /\ inst = <<>>
TNext ==
  /\ More
  /\ LET e == Ev IN
     IF e.op = "start"
     THEN /\ type' = e.type /\ inst' = <<>>
          /\ IF e.type = "inst" THEN val' = <<>>
             ELSE val' = [i \in 1..4 |-> Comps([k \in 1..Len(Kinds[e.type]) |-> Zero], e.type)] /\ Reported(e)
     ELSE IF type = "inst" THEN Lives(e) ELSE Program(e)
  /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
