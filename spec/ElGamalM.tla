------------------------------ MODULE ElGamalM ------------------------------
(***************************************************************************)
(* ElGamal over a curve (G01).  A ciphertext is <<u, v>>; integers are     *)
(* carried by the x coordinate of a point, above Gap low-order bits.       *)
(***************************************************************************)
EXTENDS Curve

\* All the randomness of one operation is a scalar below c.n.
KeyOf(sk, c) == <<sk, PMul(sk, Gen(c), c)>>
Cipher(pk, M, r, c) == <<PMul(r, Gen(c), c), PAdd(PMul(r, pk, c), M, c)>>
Plain(sk, ct, c) == PSub(ct[2], PMul(sk, ct[1], c), c)
\* The integer a point carries.
Value(P, gap) == NShr(P[1], gap)
Carries(P, m, gap, c) == ~IsInf(P) /\ OnCurve(P, c) /\ NEq(Value(P, gap), m)
\* The encoding: the first x from m 2^gap on that some point has.
RECURSIVE FirstPoint(_, _)
FirstPoint(x, c) == LET P == Lift(x, c) IN IF IsInf(P) THEN FirstPoint(NAdd(x, 1), c) ELSE P
EncodeInt(m, gap, c) == FirstPoint(NShl(m, gap), c)
=============================================================================
