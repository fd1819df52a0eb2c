------------------------------- MODULE FieldM -------------------------------
(***************************************************************************)
(* Programs over variables of one prime field (F01, F02, part of V01).     *)
(*                                                                         *)
(* State: the modulus, a sequence of registers holding canonical           *)
(* representatives and the answer of the last comparison.  One action per  *)
(* operation of PrimeField; every action names the registers it reads and  *)
(* writes, so aliasing (d = i = j) is part of the model and "no other      *)
(* operand changes" is the frame condition of Put.                         *)
(***************************************************************************)
EXTENDS Field, TLC

VARIABLES prime, reg, ret
fvars == <<prime, reg, ret>>

NoRet == "none"
Put(d, v) == reg' = [reg EXCEPT ![d] = v] /\ ret' = NoRet /\ UNCHANGED prime
Answer(b) == ret' = (IF b THEN "true" ELSE "false") /\ UNCHANGED <<prime, reg>>

FInit(p, n) == prime = p /\ reg = [i \in 1..n |-> NMod(0, p)] /\ ret = NoRet

Load(d, v)    == Put(d, FEl(v, prime))
Copy(d, i)    == Put(d, reg[i])
Add(d, i, j)  == Put(d, FAdd(reg[i], reg[j], prime))
Sub(d, i, j)  == Put(d, FSub(reg[i], reg[j], prime))
Neg(d, i)     == Put(d, FNeg(reg[i], prime))
Mul(d, i, j)  == Put(d, FMul(reg[i], reg[j], prime))
MulInt(d, i, k) == Put(d, FMul(reg[i], k, prime))
Square(d, i)  == Put(d, FSq(reg[i], prime))
Invert(d, i)  == ~NIsZero(reg[i]) /\ Put(d, FInv(reg[i], prime))
Div(d, i, j)  == ~NIsZero(reg[j]) /\ Put(d, FDiv(reg[i], reg[j], prime))
Equal(i, j)   == Answer(NEq(reg[i], reg[j]))
Other(i, j)   == Answer(FALSE)        \* same value, different modulus

\* Dispatch on an action record [op, ix, k]; compound forms have d = i.
Step(a) ==
  CASE a.op = "load"  -> Load(a.ix[1], a.k)
    [] a.op \in {"copy", "assign", "swapcopy"} -> Copy(a.ix[1], a.ix[2])
    [] a.op = "add"   -> Add(a.ix[1], a.ix[2], a.ix[3])
    [] a.op = "sub"   -> Sub(a.ix[1], a.ix[2], a.ix[3])
    [] a.op = "mul"   -> Mul(a.ix[1], a.ix[2], a.ix[3])
    [] a.op = "div"   -> Div(a.ix[1], a.ix[2], a.ix[3])
    [] a.op = "addeq" -> Add(a.ix[1], a.ix[1], a.ix[2])
    [] a.op = "subeq" -> Sub(a.ix[1], a.ix[1], a.ix[2])
    [] a.op = "muleq" -> Mul(a.ix[1], a.ix[1], a.ix[2])
    [] a.op = "diveq" -> Div(a.ix[1], a.ix[1], a.ix[2])
    [] a.op = "neg"   -> Neg(a.ix[1], a.ix[2])
    [] a.op = "muli"  -> MulInt(a.ix[1], a.ix[2], a.k)
    [] a.op = "muleqi" -> MulInt(a.ix[1], a.ix[1], a.k)
    [] a.op = "sq"    -> Square(a.ix[1], a.ix[2])
    [] a.op = "inv"   -> Invert(a.ix[1], a.ix[2])
    [] a.op = "eq"    -> Equal(a.ix[1], a.ix[2])
    [] a.op = "eqmod" -> Other(a.ix[1], a.ix[2])

(* ------------------------------ properties ------------------------------ *)
Canonical == \A i \in DOMAIN reg : NLe(0, reg[i]) /\ NLt(reg[i], prime)

\* Laws of a field, over every pair of reachable register contents.
Laws ==
  \A i, j \in DOMAIN reg :
    LET a == reg[i]  b == reg[j]  p == prime IN
    /\ FAdd(a, b, p) = FAdd(b, a, p) /\ FMul(a, b, p) = FMul(b, a, p)
    /\ FSub(FAdd(a, b, p), b, p) = a
    /\ FAdd(a, FNeg(a, p), p) = NMod(0, p)
    /\ FSq(FAdd(a, b, p), p) = FAdd(FAdd(FSq(a, p), FMul(2, FMul(a, b, p), p), p), FSq(b, p), p)
    /\ ~NIsZero(b) => /\ FMul(b, FInv(b, p), p) = NMod(1, p)
                      /\ FMul(FDiv(a, b, p), b, p) = a
                      /\ \A c \in DOMAIN reg : NEq(FMul(reg[c], b, p), a) => reg[c] = FDiv(a, b, p)
=============================================================================
