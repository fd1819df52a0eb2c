------------------------------- MODULE MC_Dme -------------------------------
(***************************************************************************)
(* The encryption scheme on a small curve: every reference string, key,    *)
(* randomness and message; ciphertexts are combined and opened.            *)
(***************************************************************************)
EXTENDS DmeM, Curves
VARIABLES mode, td, crs, key, cts, opened
vars == <<mode, td, crs, key, cts, opened>>
C == ThisCurve
MaxCt == IF "MAXCT" \in DOMAIN IOEnv THEN 2 ELSE 1
Pts == Points(C)
N0 == Scalars(C)
NoKey == [b |-> 9]

Init == mode = "none" /\ td = <<>> /\ crs = <<>> /\ key = NoKey /\ cts = <<>> /\ opened = <<>>
SetupMessy == /\ mode = "none" /\ mode' = "messy"
              /\ \E g0, g1 \in Pts, e0, e1 \in N0 : td' = <<e0, e1>> /\ crs' = MessyCrs(g0, g1, e0, e1, C)
              /\ UNCHANGED <<key, cts, opened>>
SetupDec == /\ mode = "none" /\ mode' = "dec"
            /\ \E g \in Pts, y, e \in N0 : td' = <<y>> /\ crs' = DecCrs(g, y, e, C)
            /\ UNCHANGED <<key, cts, opened>>
KeyGen == /\ mode # "none" /\ key = NoKey
          /\ \E b \in {0, 1}, sk \in N0 : key' = [b |-> b, pk |-> PkOf(crs, b, sk, C), sk |-> <<sk, sk>>]
          /\ UNCHANGED <<mode, td, crs, cts, opened>>
\* y = 0 has no inverse; the trapdoor is then undefined.
TrapKeyGen == /\ mode = "dec" /\ key = NoKey /\ td[1] # 0
              /\ \E r \in N0 : key' = [b |-> 2, pk |-> PkOf(crs, 0, r, C), sk |-> <<r, FDiv(r, td[1], C.n)>>]
              /\ UNCHANGED <<mode, td, crs, cts, opened>>
Enc == /\ key # NoKey /\ Len(cts) < MaxCt /\ opened = <<>>
       /\ \E b \in {0, 1}, m \in Pts, s, t \in N0 :
            /\ cts # <<>> => b = cts[1].b /\ s = 1            \* the second ciphertext: same branch, one scalar fixed
            /\ cts' = Append(cts, [b |-> b, m |-> m, ct |-> EncOf(crs, key.pk, b, m, s, t, C)])
       /\ UNCHANGED <<mode, td, crs, key, opened>>
EvalAll == /\ Len(cts) = 2 /\ opened = <<>> /\ cts[1].b = cts[2].b
           /\ cts' = <<[b |-> cts[1].b, m |-> PAdd(cts[1].m, cts[2].m, C), ct |-> EvalOf(cts[1].ct, cts[2].ct, C)]>>
           /\ opened' = <<"combined">> /\ UNCHANGED <<mode, td, crs, key>>
Next == SetupMessy \/ SetupDec \/ KeyGen \/ TrapKeyGen \/ Enc \/ EvalAll
Spec == Init /\ [][Next]_vars

\* D01, D03 (trapdoor), D04: every ciphertext on a branch the key opens gives its message.
Opens == \A i \in DOMAIN cts : key.b \in {2, cts[i].b} => DecOf(key.sk[cts[i].b + 1], cts[i].ct, C) = cts[i].m

\* D02: with a proper messy reference string FindMessy names a hiding branch for every public key but the trivial one.
FindMessy(e0, pk) == IF pk[2] = PMul(e0, pk[1], C) THEN 1 ELSE 0
Proper == {<<g0, g1, e0, e1>> \in (Pts \ {Inf}) \X (Pts \ {Inf}) \X N0 \X N0 : e0 # e1}
ASSUME \A q \in Proper : \A pk \in (Pts \X Pts) \ {<<Inf, Inf>>} :
         LET cr == MessyCrs(q[1], q[2], q[3], q[4], C) IN Hides(cr, pk, FindMessy(q[3], pk), Pts, C)
\* ... and honest keys hide on the other branch only.
ASSUME \A q \in Proper : \A b \in {0, 1} : \A sk \in N0 \ {0} :
         LET cr == MessyCrs(q[1], q[2], q[3], q[4], C)  pk == PkOf(cr, b, sk, C) IN
         FindMessy(q[3], pk) = 1 - b /\ Hides(cr, pk, 1 - b, Pts, C) /\ ~Hides(cr, pk, b, Pts, C)
\* The hidden ciphertext is uniform over pairs.
ASSUME \A q \in Proper : LET cr == MessyCrs(q[1], q[2], q[3], q[4], C)  d == EncDist(cr, PkOf(cr, 0, 1, C), 1, Gen(C), C) IN
         DOMAIN d = Pts \X Pts /\ \A o \in DOMAIN d : d[o] = 1
\* D03: in decryption mode public keys of both branches are distributed alike.
ASSUME \A g \in Pts \ {Inf}, y \in N0 \ {0}, e \in N0 : LET cr == DecCrs(g, y, e, C) IN KeyDist(cr, 0, C) = KeyDist(cr, 1, C)
=============================================================================
