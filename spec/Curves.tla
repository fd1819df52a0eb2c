------------------------------- MODULE Curves -------------------------------
(* Small curves of prime order (p = 3 mod 4), used wherever every state is enumerated; the published curves are in Curve. *)
EXTENDS Curve, IOUtils
Small ==
  [c3  |-> [p |-> 7,  a |-> 0,  b |-> 4,  gx |-> 0, gy |-> 2,  n |-> 3],
   c5  |-> [p |-> 7,  a |-> 4,  b |-> 1,  gx |-> 0, gy |-> 1,  n |-> 5],
   c7  |-> [p |-> 11, a |-> 2,  b |-> 7,  gx |-> 6, gy |-> 2,  n |-> 7],
   c11 |-> [p |-> 7,  a |-> 1,  b |-> 6,  gx |-> 1, gy |-> 1,  n |-> 11],
   c13 |-> [p |-> 7,  a |-> 0,  b |-> 3,  gx |-> 1, gy |-> 2,  n |-> 13],
   c17 |-> [p |-> 11, a |-> 8,  b |-> 1,  gx |-> 0, gy |-> 1,  n |-> 17],
   c31 |-> [p |-> 23, a |-> 20, b |-> 8,  gx |-> 0, gy |-> 10, n |-> 31],
   c43 |-> [p |-> 31, a |-> 0,  b |-> 3,  gx |-> 1, gy |-> 2,  n |-> 43],
   \* used with numerals as strings only (its products exceed TLC's integers)
   cbig |-> [p |-> 66047, a |-> 20919, b |-> 9429, gx |-> 2, gy |-> 35613, n |-> 66373]]
\* The curve a run is about: named by the environment variable CURVE.
\* (NUMERALS set: the small curves with numerals as strings, as recorded by the drivers.)
ThisCurve == LET id == IOEnv.CURVE IN
  CASE id = "secp" -> Secp256r1 [] id = "bn" -> Bn254
    [] OTHER -> IF "NUMERALS" \in DOMAIN IOEnv THEN [f \in DOMAIN Small[id] |-> NStr(Small[id][f])] ELSE Small[id]

\* All points of a small curve, as multiples of the generator.
RECURSIVE Multiples(_, _, _)
Multiples(k, P, c) == IF k = 0 THEN {Inf} ELSE {PMulRef(k, P, c)} \cup Multiples(k - 1, P, c)
Points(c) == Multiples(c.n - 1, Gen(c), c)
\* Every pair of coordinates satisfying the equation.
Affine(c) == {<<x, y>> : x \in 0..(c.p - 1), y \in 0..(c.p - 1)}
Solutions(c) == {P \in Affine(c) : OnCurve(P, c)} \cup {Inf}
=============================================================================
