----------------------------- MODULE MC_ElGamal -----------------------------
(***************************************************************************)
(* Every key pair, message and choice of randomness on a small curve, in   *)
(* histories of encryptions under the keys of several parties, integers    *)
(* and points mixed.                                                       *)
(***************************************************************************)
EXTENDS ElGamalM, Curves, Dist
VARIABLES keys, box, out
vars == <<keys, box, out>>
C == ThisCurve
Gap == 3
N == 0..(C.n - 1)
Pts == Points(C)
\* Messages whose block of 2^Gap values is below p and holds the x of some point.
Ints == {m \in 0..7 : (m + 1) * 8 <= C.p /\ \E x \in (m * 8)..(m * 8 + 7) : ~IsInf(Lift(x, C))}
None == <<"none">>

Init == \E a \in N, b \in {0, 1} : keys = <<KeyOf(a, C), KeyOf(b, C)>> /\ box = <<>> /\ out = None
EncPt == out = None /\ Len(box) < 1 /\ \E k \in 1..2, M \in Pts, r \in N :
           box' = Append(box, [k |-> k, m |-> M, int |-> FALSE, ct |-> Cipher(keys[k][2], M, r, C)]) /\ UNCHANGED <<keys, out>>
EncInt == out = None /\ Len(box) < 2 /\ \E k \in 1..2, m \in Ints, r \in {1, C.n - 1} :
           box' = Append(box, [k |-> k, m |-> m, int |-> TRUE, ct |-> Cipher(keys[k][2], EncodeInt(m, Gap, C), r, C)]) /\ UNCHANGED <<keys, out>>
Dec == out = None /\ \E i \in DOMAIN box :
           out' = <<i, Plain(keys[box[i].k][1], box[i].ct, C)>> /\ UNCHANGED <<keys, box>>
Next == EncPt \/ EncInt \/ Dec
Spec == Init /\ [][Next]_vars

ASSUME Ints # {}
\* G01
Recovered == out # None => LET b == box[out[1]] IN
               IF b.int THEN Carries(out[2], b.m, Gap, C) ELSE out[2] = b.m
\* Different integers are carried by different points.
ASSUME \A m, k \in Ints : m # k => EncodeInt(m, Gap, C) # EncodeInt(k, Gap, C)
\* With uniform randomness and a key other than the point at infinity, either half of a ciphertext alone is any point
\* equally often, whatever the message.
ASSUME \A sk \in {1, 2, C.n - 1} : \A M \in {Inf, Gen(C), PMul(2, Gen(C), C)} : \A h \in 1..2 :
         LET w == Weights([r \in N |-> Cipher(KeyOf(sk, C)[2], M, r, C)[h]]) IN DOMAIN w = Pts /\ \A P \in Pts : w[P] = 1
=============================================================================
