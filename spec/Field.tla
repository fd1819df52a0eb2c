------------------------------- MODULE Field -------------------------------
(***************************************************************************)
(* Prime fields.  An element is its canonical representative, a numeral in *)
(* 0..p-1.                                                                 *)
(***************************************************************************)
EXTENDS Num

FEl(v, p)     == NMod(v, p)                    \* element from any integer
FAdd(a, b, p) == NMod(NAdd(a, b), p)
FSub(a, b, p) == NMod(NSub(a, b), p)
FNeg(a, p)    == NMod(NSub(0, a), p)
FMul(a, b, p) == NMod(NMul(a, b), p)           \* b may be any integer
FSq(a, p)     == FMul(a, a, p)
FInv(a, p)    == NInvMod(a, p)                 \* a nonzero
FDiv(a, b, p) == FMul(a, FInv(b, p), p)        \* b nonzero

RECURSIVE FSum(_, _)
FSum(s, p) == IF s = <<>> THEN NMod(0, p) ELSE FAdd(Head(s), FSum(Tail(s), p), p)
=============================================================================
