----------------------------- MODULE MC_CurveBig -----------------------------
(***************************************************************************)
(* The published curves inside the specification: generators are points,   *)
(* n kills them, n passes Fermat tests and lies in the Hasse interval with *)
(* no other multiple of n in it (so the group has exactly n elements), and *)
(* the Java evaluation of PMul agrees with the reference definition.       *)
(***************************************************************************)
EXTENDS CurveM
VARIABLE done
Sc == {"0", "1", "2", "3", "ffffffffffffffff", "123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"}
Good(c) ==
  /\ OnCurve(Gen(c), c)
  /\ PMulRef(c.n, Gen(c), c) = Inf
  /\ \A g \in {2, 3, 5, 7} : NPowMod(g, NSub(c.n, 1), c.n) = "1" /\ NPowMod(g, NSub(c.p, 1), c.p) = "1"
  /\ NMod(c.p, 4) = "3"
  /\ LET d == NSub(NAdd(c.p, 1), c.n) IN NLt(NMul(d, d), NMul(4, c.p))
  /\ NLt(NAdd(NShl(c.p, 1), 0), NMul(c.n, 3))
  /\ \A k \in Sc : LET P == PMulRef(k, Gen(c), c) IN
       /\ PMul(k, Gen(c), c) = P
       /\ PMul(NSub(k, c.n), Gen(c), c) = P
       /\ \A m \in {"5", "fedcba9876543210"} : PMul(m, P, c) = PMulRef(m, P, c)
       /\ ~IsInf(P) => Decode(Encode(P, c), c) = P
       /\ PAdd(P, PMulRef(NSub(c.n, k), Gen(c), c), c) = Inf
ASSUME Good(Secp256r1)
ASSUME Good(Bn254)
Init == done = TRUE /\ CInit(Bn254, 1)
Next == UNCHANGED <<done, cvars>>
Spec == Init /\ [][Next]_<<done, cvars>>
=============================================================================
