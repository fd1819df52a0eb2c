-------------------------------- MODULE PudaM --------------------------------
(***************************************************************************)
(* Verifiable aggregation over a curve c (P01-P03).                        *)
(* A setup for n users is a record                                         *)
(*   [ek, tk: sequences of n scalars, a: scalar, ak: scalar, vk1, vk2];    *)
(* every time stamp t has a base point H(t), the same for all users.       *)
(***************************************************************************)
EXTENDS Curve, Dist

RECURSIVE NSum(_, _)
NSum(s, n) == IF s = <<>> THEN NMod(0, n) ELSE NMod(NAdd(s[1], NSum(Tail(s), n)), n)
SetupOf(eks, tks, a, c) ==
  [ek |-> eks, tk |-> tks, a |-> a, ak |-> NMod(NSub(0, NSum(eks, c.n)), c.n),
   vk1 |-> PMul(NSum(tks, c.n), Gen(c), c), vk2 |-> PMul(a, Gen(c), c)]

EncP(H, ek, m, c) == PAdd(PMul(ek, H, c), PMul(m, Gen(c), c), c)
TagP(H, tk, a, m, c) == PAdd(PMul(tk, H, c), PMul(NMul(a, m), Gen(c), c), c)

\* Aggregation: the masks cancel and the sum is left in the exponent of the generator.
AggPoint(H, ak, cts, c) == PAdd(PSum(cts, c), PMul(ak, H, c), c)
MaxSum == 65535
Unmasks(P, m, c) == P = PMul(m, Gen(c), c)

(* The tag certified for a sum: over public values this is e(tag, g) = e(H, vk1) e(g^sum, vk2), that is, with the      *)
(* logarithms tks, a of vk1 and vk2, tag = tks H + (a sum) G.                                                          *)
CertTag(H, tks, a, sum, c) == PAdd(PMul(tks, H, c), PMul(NMul(a, sum), Gen(c), c), c)
=============================================================================
