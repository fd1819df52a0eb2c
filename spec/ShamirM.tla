------------------------------- MODULE ShamirM -------------------------------
(***************************************************************************)
(* Threshold sharing over the prime field of q elements (S01, S02).  A     *)
(* sharing is a polynomial: coefficients in increasing degree, the first   *)
(* being the secret; share i is <<i, value at i>>.                         *)
(***************************************************************************)
EXTENDS Field, FiniteSets, SequencesExt, TLC

RECURSIVE Horner(_, _, _, _)
Horner(cs, k, x, q) == IF k > Len(cs) THEN 0 ELSE FAdd(cs[k], FMul(x, Horner(cs, k + 1, x, q), q), q)
EvalRef(cs, x, q) == NMod(Horner(cs, 1, x, q), q)
Eval(cs, x, q) == EvalRef(cs, x, q)          \* evaluated by java/vnum; MC_Shamir compares
Shares(cs, n, q) == [i \in 1..n |-> <<i, Eval(cs, i, q)>>]

\* Value at 0 of the polynomial through the points of s (distinct first components): Lagrange.
RECURSIVE Prod(_, _, _)
Prod(s, k, q) == IF k > Len(s) THEN 1 ELSE FMul(s[k], Prod(s, k + 1, q), q)
Weight(s, i, q) ==
  LET num == [j \in 1..Len(s) |-> IF j = i THEN 1 ELSE s[j][1]]
      den == [j \in 1..Len(s) |-> IF j = i THEN 1 ELSE FSub(s[j][1], s[i][1], q)]
  IN FDiv(Prod(num, 1, q), Prod(den, 1, q), q)
AtZero(s, q) == FSum([i \in 1..Len(s) |-> FMul(s[i][2], Weight(s, i, q), q)], q)

\* Coefficients of the polynomial of degree < Len(s) through s (Newton form, expanded).
RECURSIVE DivDiff(_, _, _, _)
DivDiff(s, col, k, q) ==                   \* col: column k of the divided-difference table; returns the leading entries
  IF Len(col) = 1 THEN <<col[1]>>
  ELSE LET next == TLCEval([i \in 1..(Len(col) - 1) |-> FDiv(FSub(col[i + 1], col[i], q), FSub(s[i + k][1], s[i][1], q), q)])
       IN <<col[1]>> \o DivDiff(s, next, k + 1, q)
RECURSIVE Expand(_, _, _, _)
Expand(d, s, k, q) ==                      \* d[k] + (x - x_k) * Expand(k + 1)
  IF k = Len(d) THEN <<d[k]>>
  ELSE LET r == <<0>> \o Expand(d, s, k + 1, q) \o <<0>>
       IN TLCEval([i \in 1..(Len(r) - 1) |->
             FAdd(FSub(r[i], FMul(r[i + 1], s[k][1], q), q), IF i = 1 THEN d[k] ELSE 0, q)])
CoefficientsRef(s, q) == Expand(DivDiff(s, [i \in 1..Len(s) |-> s[i][2]], 1, q), s, 1, q)
Coefficients(s, q) == CoefficientsRef(s, q)   \* evaluated by java/vnum; MC_Shamir compares
=============================================================================
