------------------------------- MODULE Curve -------------------------------
(***************************************************************************)
(* The group of points of a short Weierstrass curve y^2 = x^3 + a x + b    *)
(* over a prime field, of prime order n.                                   *)
(*                                                                         *)
(* A curve is a record [p, a, b, gx, gy, n].  A point is <<>> (infinity)   *)
(* or <<x, y>> with numerals 0 <= x, y < p.                                *)
(***************************************************************************)
EXTENDS Field

Inf == <<>>
IsInf(P) == P = <<>>
Gen(c) == <<c.gx, c.gy>>

\* Right-hand side of the curve equation at x.
Rhs(x, c) == FAdd(FAdd(FMul(FSq(x, c.p), x, c.p), FMul(c.a, x, c.p), c.p), c.b, c.p)

OnCurve(P, c) ==
  IsInf(P) \/ NEq(FSq(P[2], c.p), Rhs(P[1], c))

PEq(P, Q) == P = Q

PNeg(P, c) == IF IsInf(P) THEN Inf ELSE <<P[1], FNeg(P[2], c.p)>>

\* Chord through two points with different x; tangent at a point with y # 0.
Chord(P, Q, s, c) ==
  LET x == FSub(FSub(FSq(s, c.p), P[1], c.p), Q[1], c.p)
      y == FSub(FMul(s, FSub(P[1], x, c.p), c.p), P[2], c.p)
  IN <<x, y>>

PDbl(P, c) ==
  IF IsInf(P) \/ NIsZero(P[2]) THEN Inf
  ELSE Chord(P, P,
             FDiv(FAdd(FMul(3, FSq(P[1], c.p), c.p), c.a, c.p), FMul(2, P[2], c.p), c.p),
             c)

PAdd(P, Q, c) ==
  CASE IsInf(P) -> Q
    [] IsInf(Q) -> P
    [] ~IsInf(P) /\ ~IsInf(Q) /\ NEq(P[1], Q[1]) ->
         IF NEq(P[2], Q[2]) THEN PDbl(P, c) ELSE Inf
    [] OTHER -> Chord(P, Q, FDiv(FSub(P[2], Q[2], c.p), FSub(P[1], Q[1], c.p), c.p), c)

PSub(P, Q, c) == PAdd(P, PNeg(Q, c), c)

\* k-fold sum for k >= 0, by halving k (reference definition).
RECURSIVE PMulRef(_, _, _)
PMulRef(k, P, c) ==
  IF NIsZero(k) THEN Inf
  ELSE LET H == PMulRef(NShr(k, 1), P, c)
           D == PDbl(H, c)
       IN IF NBit(k, 0) = 1 THEN PAdd(D, P, c) ELSE D

\* Scalar multiple for every integer k.  Evaluated by java/vnum (projective
\* double-and-add); MC_Curve.tla and MC_CurveBig.tla check that it agrees
\* with PMulRef.
PMul(k, P, c) == PMulRef(NMod(k, c.n), P, c)

\* Square roots for p = 3 mod 4: v^((p+1)/4) is a root iff v has one.
SqrtCand(v, c) == NPowMod(v, NShr(NAdd(c.p, 1), 2), c.p)
HasSqrt(v, c) == NEq(FSq(SqrtCand(v, c), c.p), NMod(v, c.p))

\* The two points at x (principal root, other root), infinity if none.
Lift(x, c) ==
  LET v == Rhs(x, c) IN
  IF HasSqrt(v, c) THEN <<NMod(x, c.p), SqrtCand(v, c)>> ELSE Inf
LiftNeg(x, c) == PNeg(Lift(x, c), c)

\* Compressed form of a finite point and its inverse.
Encode(P, c) == NAdd(NShl(P[1], 1), IF Lift(P[1], c) = P THEN 1 ELSE 0)
Decode(e, c) == IF NBit(e, 0) = 1 THEN Lift(NMod(NShr(e, 1), c.p), c)
                                  ELSE LiftNeg(NMod(NShr(e, 1), c.p), c)

RECURSIVE PSum(_, _)
PSum(s, c) == IF s = <<>> THEN Inf ELSE PAdd(Head(s), PSum(Tail(s), c), c)

\* The published parameters.
Secp256r1 ==
  [p  |-> "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
   a  |-> "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc",
   b  |-> "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
   gx |-> "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
   gy |-> "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5",
   n  |-> "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"]

Bn254 ==
  [p  |-> "2523648240000001ba344d80000000086121000000000013a700000000000013",
   a  |-> "0",
   b  |-> "2",
   gx |-> "2523648240000001ba344d80000000086121000000000013a700000000000012",
   gy |-> "1",
   n  |-> "2523648240000001ba344d8000000007ff9f800000000010a10000000000000d"]
=============================================================================
