-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Arithmetic used by every other module.                                  *)
(*                                                                         *)
(* A numeral is an integer.  TLC's integers are 32 bits wide, so for the   *)
(* full-size parameters of the implementation (256-bit primes) a numeral   *)
(* may also be written as a string of lower-case hexadecimal digits with   *)
(* an optional leading "-" ("-ff" denotes -255).  The definitions below    *)
(* give the meaning on integers; java/vnum/NumOverrides.java evaluates     *)
(* the same operators for TLC on both notations with java.math.BigInteger. *)
(* The result is a string when at least one operand is a string, so a      *)
(* model written with integer constants stays in TLC integers and the very *)
(* same text evaluated on traces of the real code works on strings.        *)
(* MC_Num.tla checks the overrides against these definitions.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE NPow2(_)
NPow2(k) == IF k = 0 THEN 1 ELSE 2 * NPow2(k - 1)

NAdd(a, b) == a + b
NSub(a, b) == a - b
NMul(a, b) == a * b
NDiv(a, b) == a \div b                 \* floor division, b > 0
NMod(a, m) == a % m                    \* in 0..m-1, m > 0, a of any sign
NEq(a, b)  == a = b
NLt(a, b)  == a < b
NLe(a, b)  == a <= b
NShl(a, k) == a * NPow2(k)
NShr(a, k) == a \div NPow2(k)
NBit(a, i) == (a \div NPow2(i)) % 2

RECURSIVE NBitLenDef(_)
NBitLenDef(a) == IF a = 0 THEN 0 ELSE 1 + NBitLenDef(a \div 2)
NBitLen(a) == NBitLenDef(a)            \* a >= 0

RECURSIVE NPowModDef(_, _, _)
NPowModDef(a, e, m) ==
  IF e = 0 THEN 1 % m
  ELSE LET h == NPowModDef(a, e \div 2, m)
           s == (h * h) % m
       IN IF e % 2 = 1 THEN (s * (a % m)) % m ELSE s
NPowMod(a, e, m) == NPowModDef(a, e, m)

\* Inverse of a modulo the prime m; a not divisible by m.
NInvMod(a, m) == CHOOSE x \in 0..(m - 1) : (a * x) % m = 1 % m

\* Minimal big-endian byte sequence of a >= 0 (empty for 0), and back.
RECURSIVE NBytesDef(_)
NBytesDef(a) == IF a = 0 THEN <<>> ELSE Append(NBytesDef(a \div 256), a % 256)
NBytes(a) == NBytesDef(a)

RECURSIVE NFromBytesDef(_)
NFromBytesDef(s) ==
  IF s = <<>> THEN 0
  ELSE 256 * NFromBytesDef(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)]
NFromBytes(s) == NFromBytesDef(s)

\* The same number written as a TLC integer (the caller knows it is small),
\* respectively as a hexadecimal string.
NInt(a) == a
NStr(a) == a

NIsZero(a) == NEq(a, 0)
NMin(a, b) == IF NLe(a, b) THEN a ELSE b
=============================================================================
