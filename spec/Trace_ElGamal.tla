---------------------------- MODULE Trace_ElGamal ----------------------------
(* Recorded runs of the ElGamal class against ElGamalM (G01).              *)
EXTENDS ElGamalM, Curves, Dist, TraceBase
VARIABLES keys,        \* key pair -> <<sk, pk>>
          cts,         \* ciphertext -> [k, ct, m: integer or "-", P: point]
          seen,        \* secret keys and first halves of ciphertexts
          hist
vars == <<keys, cts, seen, hist, l>>
C == ThisCurve
GapBits == 20
Set(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
TInit == l = 1 /\ keys = <<>> /\ cts = <<>> /\ seen = {} /\ hist = [w \in {"sk", "u"} |-> EmptyHist]
Fresh(v) == v \notin seen /\ seen' = seen \cup {v}
InScalars(v) == NLe(0, v) /\ NLt(v, C.n)

\* A scalar that takes every value below the order needs that many outcomes of the random source, although a
\* ciphertext does not show it.
Drawn(e) == NLe(C.n, NShl("1", e.w))
KeyGen(e) == /\ InScalars(e.sk) /\ Drawn(e) /\ e.pk = KeyOf(e.sk, C)[2]
             /\ keys' = Set(keys, e.k, <<e.sk, e.pk>>)
             /\ Fresh(e.sk) /\ hist' = [hist EXCEPT !["sk"] = Count(@, e.sk, C.n)]
             /\ UNCHANGED cts
\* A key pair made by the caller.
SetKey(e) == keys' = Set(keys, e.k, <<e.sk, KeyOf(e.sk, C)[2]>>) /\ e.pk = KeyOf(e.sk, C)[2] /\ UNCHANGED <<cts, seen, hist>>
\* What an owner of the secret key finds in the ciphertext: the point given, or one that carries the integer.
Encrypted(e, ok(_)) ==
  \E M \in {TLCEval(Plain(keys[e.k][1], e.ct, C))} :
    /\ OnCurve(e.ct[1], C) /\ OnCurve(e.ct[2], C) /\ ok(M)
    /\ cts' = Set(cts, e.c, [k |-> e.k, P |-> M, ct |-> e.ct])
    /\ Drawn(e) /\ ~IsInf(e.ct[1]) /\ Fresh(e.ct[1][1]) /\ hist' = [hist EXCEPT !["u"] = Count(@, e.ct[1][1], C.p)]
    /\ UNCHANGED keys
EncInt(e) == LET ok(M) == Carries(M, e.m, GapBits, C) IN Encrypted(e, ok)
EncPt(e) == LET ok(M) == M = e.pt IN Encrypted(e, ok)
\* Under another key: whatever that key makes of it.
Dec(e) == e.v = Value(IF e.k = cts[e.c].k THEN cts[e.c].P ELSE Plain(keys[e.k][1], cts[e.c].ct, C), GapBits) /\ UNCHANGED <<keys, cts, seen, hist>>
\* A long run: no secret key and no ciphertext comes twice.
Many(e) == \A S \in {{e.vs[i] : i \in DOMAIN e.vs}}, X \in {{e.xs[i] : i \in DOMAIN e.xs}} :
  /\ Cardinality(S) = Len(e.vs) /\ Cardinality(X) = Len(e.xs) /\ (S \cup X) \cap seen = {} /\ (TRUE = \A v \in S : InScalars(v))
  /\ seen' = seen \cup S \cup X /\ UNCHANGED <<keys, cts, hist>>
Spread(e) == WellSpread(hist[e.what]) /\ UNCHANGED <<keys, cts, seen, hist>>

(* ------------------------ all outcomes, small curves ------------------------ *)
N0 == 0..(C.n - 1)
Outcome(e) ==
  CASE e.what = "keys" -> [s \in N0 |-> KeyOf(s, C)]
    [] e.what = "keys2" -> [s \in N0 \X N0 |-> <<KeyOf(s[1], C), KeyOf(s[2], C)>>]
    [] e.what = "enc" -> [r \in N0 |-> Cipher(KeyOf(e.sk, C)[2], PMul(e.m, Gen(C), C), r, C)]
    [] e.what = "enc2" -> [r \in N0 \X N0 |-> <<Cipher(KeyOf(e.sk, C)[2], PMul(e.m, Gen(C), C), r[1], C),
                                              Cipher(KeyOf(e.sk, C)[2], PMul(e.m, Gen(C), C), r[2], C)>>]
    [] e.what = "all" -> [s \in N0 \X N0 |-> <<KeyOf(s[1], C), Cipher(KeyOf(s[1], C)[2], PMul(e.m, Gen(C), C), s[2], C)>>]
Distribution(e) == SameDistribution(e, Outcome(e)) /\ UNCHANGED <<keys, cts, seen, hist>>

TNext ==
  /\ More
  /\ LET e == Ev IN
     CASE e.op = "start" -> keys' = <<>> /\ cts' = <<>> /\ UNCHANGED <<seen, hist>>
       [] e.op = "keygen" -> KeyGen(e)
       [] e.op = "setkey" -> SetKey(e)
       [] e.op = "encint" -> EncInt(e)
       [] e.op = "encpt" -> EncPt(e)
       [] e.op = "dec" -> Dec(e)
       [] e.op = "many" -> Many(e)
       [] e.op = "spread" -> Spread(e)
       [] e.op = "dist" -> Distribution(e)
       [] OTHER -> FALSE
  /\ Advance
TSpec == TInit /\ [][TNext]_vars
=============================================================================
