------------------------------- MODULE CurveM -------------------------------
(***************************************************************************)
(* Programs over point variables of one curve (E01-E04, part of V01).      *)
(***************************************************************************)
EXTENDS Curve, TLC
VARIABLES crv, reg, ret
cvars == <<crv, reg, ret>>

NoRet == "none"
Put(d, P) == reg' = [reg EXCEPT ![d] = P] /\ ret' = NoRet /\ UNCHANGED crv
Answer(v) == ret' = v /\ UNCHANGED <<crv, reg>>
Bool(b) == IF b THEN "true" ELSE "false"

CInit(c, n) == crv = c /\ reg = [i \in 1..n |-> Inf] /\ ret = NoRet

LoadPt(d, x, y) == OnCurve(<<FEl(x, crv.p), FEl(y, crv.p)>>, crv) /\ Put(d, <<FEl(x, crv.p), FEl(y, crv.p)>>)
LoadInf(d)      == Put(d, Inf)
LoadGen(d)      == Put(d, Gen(crv))
Copy(d, i)      == Put(d, reg[i])
Add(d, i, j)    == Put(d, PAdd(reg[i], reg[j], crv))
Sub(d, i, j)    == Put(d, PSub(reg[i], reg[j], crv))
Double(d, i)    == Put(d, PDbl(reg[i], crv))
Times(d, i, k)  == Put(d, PMul(k, reg[i], crv))
Equal(i, j)     == Answer(Bool(PEq(reg[i], reg[j])))
Valid(i)        == Answer(Bool(OnCurve(reg[i], crv)))
ValidXY(x, y)   == Answer(Bool(OnCurve(<<FEl(x, crv.p), FEl(y, crv.p)>>, crv)))
EncodeX(i)      == ~IsInf(reg[i]) /\ Answer(NStr(Encode(reg[i], crv)))
DecodeX(d, e)   == Put(d, Decode(e, crv))
LiftX(d, x)     == Put(d, Lift(FEl(x, crv.p), crv))
LiftNegX(d, x)  == Put(d, LiftNeg(FEl(x, crv.p), crv))
RhsX(x)         == Answer(NStr(Rhs(FEl(x, crv.p), crv)))

Step(a) ==
  CASE a.op \in {"pt", "ptstr", "ptfield"} -> LoadPt(a.ix[1], a.k, a.y)
    [] a.op = "inf" -> LoadInf(a.ix[1])
    [] a.op = "gen" -> LoadGen(a.ix[1])
    [] a.op \in {"copy", "assign", "swapcopy"} -> Copy(a.ix[1], a.ix[2])
    [] a.op = "add" -> Add(a.ix[1], a.ix[2], a.ix[3])
    [] a.op = "sub" -> Sub(a.ix[1], a.ix[2], a.ix[3])
    [] a.op = "addeq" -> Add(a.ix[1], a.ix[1], a.ix[2])
    [] a.op = "subeq" -> Sub(a.ix[1], a.ix[1], a.ix[2])
    [] a.op = "dbl" -> Double(a.ix[1], a.ix[2])
    [] a.op \in {"mulz", "mulf"} -> Times(a.ix[1], a.ix[2], a.k)
    [] a.op \in {"muleqz", "muleqf"} -> Times(a.ix[1], a.ix[1], a.k)
    [] a.op = "eq" -> Equal(a.ix[1], a.ix[2])
    [] a.op = "valid" -> Valid(a.ix[1])
    [] a.op = "validxy" -> ValidXY(a.k, a.y)
    [] a.op = "validnone" -> Answer("false")          \* coordinates on no curve at all
    [] a.op = "enc" -> EncodeX(a.ix[1])
    [] a.op \in {"dec", "decself"} -> DecodeX(a.ix[1], a.k)
    [] a.op = "lift" -> LiftX(a.ix[1], a.k)
    [] a.op = "liftn" -> LiftNegX(a.ix[1], a.k)
    [] a.op = "rhs" -> RhsX(a.k)

(* ------------------------------ properties ------------------------------ *)
AllValid == \A i \in DOMAIN reg : OnCurve(reg[i], crv)

GroupLaws ==
  \A i, j \in DOMAIN reg : LET P == reg[i]  Q == reg[j]  c == crv IN
    /\ PAdd(P, Q, c) = PAdd(Q, P, c)
    /\ PSub(PAdd(P, Q, c), Q, c) = P
    /\ PAdd(P, PNeg(P, c), c) = Inf
    /\ PDbl(P, c) = PAdd(P, P, c)
    /\ \A k \in DOMAIN reg : PAdd(PAdd(P, Q, c), reg[k], c) = PAdd(P, PAdd(Q, reg[k], c), c)
CompressLaws ==
  \A i \in DOMAIN reg : LET P == reg[i] IN
    ~IsInf(P) => /\ Decode(Encode(P, crv), crv) = P
                 /\ {Lift(P[1], crv), LiftNeg(P[1], crv)} = {P, PNeg(P, crv)}
=============================================================================
