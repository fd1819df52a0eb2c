-------------------------------- MODULE DmeM --------------------------------
(***************************************************************************)
(* Dual-mode encryption over a curve c (D01-D04).                          *)
(* A reference string is <<g0, g1, h0, h1>>, a public key <<g, h>>, a      *)
(* ciphertext <<u, v>>; branches are 0 and 1.                              *)
(***************************************************************************)
EXTENDS Curve, Dist

Base(crs, b) == IF b = 0 THEN <<crs[1], crs[3]>> ELSE <<crs[2], crs[4]>>
MessyCrs(g0, g1, e0, e1, c) == <<g0, g1, PMul(e0, g0, c), PMul(e1, g1, c)>>
DecCrs(g, y, e, c) == LET g1 == PMul(y, g, c) IN <<g, g1, PMul(e, g, c), PMul(e, g1, c)>>

PkOf(crs, b, sk, c) == <<PMul(sk, Base(crs, b)[1], c), PMul(sk, Base(crs, b)[2], c)>>
Lin(B, s, t, c) == PAdd(PMul(s, B[1], c), PMul(t, B[2], c), c)
EncOf(crs, pk, b, m, s, t, c) == <<Lin(Base(crs, b), s, t, c), PAdd(Lin(pk, s, t, c), m, c)>>
DecOf(sk, ct, c) == PSub(ct[2], PMul(sk, ct[1], c), c)
EvalOf(ca, cb, c) == <<PAdd(ca[1], cb[1], c), PAdd(ca[2], cb[2], c)>>

\* pk is a multiple of the branch's base (both components by the same scalar): its key opens the branch.
OnBranch(crs, pk, b, e, c) == pk[2] = PMul(e, pk[1], c)   \* e: the logarithm of h_b to the base g_b

\* Integer messages are points whose x-coordinate starts with the message.
SHIFT == 10
IntOf(P) == NShr(P[1], SHIFT)
Carries(P, m) == ~IsInf(P) /\ NEq(IntOf(P), m)

(* --- the ciphertext distribution over s, t; hiding means it does not depend on the message --- *)
Scalars(c) == 0..(c.n - 1)
EncDist(crs, pk, b, m, c) == TLCEval(Weights(TLCEval([st \in Scalars(c) \X Scalars(c) |-> EncOf(crs, pk, b, m, st[1], st[2], c)])))
Hides(crs, pk, b, pts, c) == \E d \in {EncDist(crs, pk, b, Inf, c)} : \A m \in pts : EncDist(crs, pk, b, m, c) = d
KeyDist(crs, b, c) == TLCEval(Weights(TLCEval([sk \in Scalars(c) |-> PkOf(crs, b, sk, c)])))
=============================================================================
