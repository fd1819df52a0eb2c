------------------------------ MODULE MC_Shamir ------------------------------
(***************************************************************************)
(* All sharings over a small field, all selections in all orders (printed  *)
(* for replay), and the counting argument for secrecy.                     *)
(***************************************************************************)
EXTENDS ShamirM, Json, IOUtils
VARIABLES t, cs, sel, out
vars == <<t, cs, sel, out>>
Q == IF IOEnv.CURVE = "c5" THEN 5 ELSE 7
NSh == 4
TMax == IF IOEnv.CURVE = "c5" THEN 3 ELSE 2
F == 0..(Q - 1)
Polys(k) == [1..k -> F]

Init == \E k \in 1..TMax : t = k /\ cs \in Polys(k) /\ sel = <<>> /\ out = -1
\* The dealer's shares reach the reconstruction one after the other, in any order.
Give == out = -1 /\ \E i \in 1..NSh : i \notin {sel[j] : j \in DOMAIN sel} /\ sel' = Append(sel, i) /\ UNCHANGED <<t, cs, out>>
Chosen == [j \in DOMAIN sel |-> Shares(cs, NSh, Q)[sel[j]]]
Recon == out = -1 /\ sel # <<>> /\ out' = AtZero(Chosen, Q) /\ UNCHANGED <<t, cs, sel>>
Next == Give \/ Recon
Spec == Init /\ [][Next]_vars
\* S01
Correct == out # -1 /\ Len(sel) >= t => out = cs[1]
CoeffsRight == Len(sel) = t => Coefficients(Chosen, Q) = cs /\ CoefficientsRef(Chosen, Q) = cs
ASSUME \A k \in 1..TMax : \A c \in Polys(k) : \A x \in F : Eval(c, x, Q) = EvalRef(c, x, Q)
Emit == out' # -1 /\ Len(sel) >= t => PrintT(ToJson([t |-> t, shares |-> Chosen, secret |-> cs[1]]))

\* S02: for every t and every choice of t-1 shares, each combination of values arises from exactly one polynomial per secret.
ASSUME \A k \in 1..TMax : \A S \in SUBSET (1..NSh) : Cardinality(S) = k - 1 =>
         \A s \in F : \A v \in [S -> F] :
           Cardinality({c \in Polys(k) : c[1] = s /\ \A i \in S : Eval(c, i, Q) = v[i]}) = 1
=============================================================================
