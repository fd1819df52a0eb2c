------------------------------- MODULE MC_Sym -------------------------------
(***************************************************************************)
(* Symmetric machine: the process-wide counter, any number of encryptions  *)
(* and decryptions.  Also checks the reference definitions of Sym against  *)
(* published vectors and the evaluated overrides, and the algebra that     *)
(* turns "the checksum is CRC-32C" into detection guarantees.              *)
(***************************************************************************)
EXTENDS Sym, FiniteSets

Fips == [k \in 1..16 |-> k - 1]
FipsIn == [k \in 1..16 |-> 17 * (k - 1)]
FipsOut == <<105, 196, 224, 216, 106, 123, 4, 48, 216, 205, 183, 128, 112, 180, 197, 90>>
ASSUME AesBlockRef(Fips, FipsIn) = FipsOut
ASSUME AesBlock(Fips, FipsIn) = FipsOut
ASSUME Cardinality({SBox[x] : x \in 0..255}) = 256 /\ SBox[0] = 99 /\ SBox[83] = 237
Sample(a, b) == [i \in 1..16 |-> (a * i * i + b * i + a * b) % 256]
ASSUME \A a \in {0, 7, 41}, b \in {0, 3, 255} : AesBlock(Sample(a, b), Sample(b, a + 1)) = AesBlockRef(Sample(a, b), Sample(b, a + 1))
\* SP 800-38A F.5.1, first two blocks
CtrKey == <<43, 126, 21, 22, 40, 174, 210, 166, 171, 247, 21, 136, 9, 207, 79, 60>>
CtrIv == [i \in 1..16 |-> 239 + i]
CtrIn == <<107, 193, 190, 226, 46, 64, 159, 150, 233, 61, 126, 17, 115, 147, 23, 42, 174, 45, 138, 87, 30, 3, 172, 156, 158, 183, 111, 172, 69, 175, 142, 81>>
CtrOut == <<135, 77, 97, 145, 182, 32, 227, 38, 27, 239, 104, 100, 153, 13, 182, 206, 152, 6, 246, 107, 121, 112, 253, 255, 134, 23, 24, 123, 185, 255, 253, 255>>
ASSUME CtrRef(CtrKey, CtrIv, CtrIn) = CtrOut /\ Ctr(CtrKey, CtrIv, CtrIn) = CtrOut
ASSUME Inc([i \in 1..16 |-> 255]) = Zeros(16) /\ Inc(<<1, 255, 255>>) = <<2, 0, 0>>
ASSUME \A n \in 0..40 : \A v \in {[i \in 1..16 |-> 255], Zeros(16), [Zeros(16) EXCEPT ![16] = 254]} :
         LET m == [i \in 1..n |-> (37 * i) % 256] IN Ctr(CtrKey, v, m) = CtrRef(CtrKey, v, m) /\ Ctr(CtrKey, v, Ctr(CtrKey, v, m)) = m

Check == <<49, 50, 51, 52, 53, 54, 55, 56, 57>>
Ones == <<255, 255, 255, 255>>
ASSUME XorSeq(CrcRef(Ones, Check), Ones) = <<131, 146, 6, 227>>           \* the check value E3069283
ASSUME \A n \in 0..20, s \in {3, 111} : LET m == [i \in 1..n |-> (s * i * i + n) % 256] IN
         \A r \in {Crc0, Ones, <<1, 2, 3, 4>>} : CrcBytes(r, m) = CrcRef(r, m)

\* Unit errors: byte position p of n, bit b.
Unit(n, p, b) == [Zeros(n) EXCEPT ![p] = NPow2(b)]
Syndrome(e) == XorSeq(CrcBytes(Crc0, SubSeq(e, 1, Len(e) - 4)), Last(e, 4))   \* zero exactly for undetected errors
\* The checksum is linear, so an integer and its corruption differ by an error with non-zero syndrome or go undetected.
ASSUME \A n \in {1, 5, 13} : \A s, t \in {1, 77, 200} :
         LET x == [i \in 1..n |-> (s * i + t) % 256]  y == [i \in 1..n |-> (t * i * i + 3) % 256]
         IN CrcBytes(Crc0, XorSeq(x, y)) = XorSeq(CrcBytes(Crc0, x), CrcBytes(Crc0, y))
\* Leading zero bytes do not matter: integers have none.
ASSUME \A n \in 0..8 : CrcBytes(Crc0, Zeros(n) \o Check) = CrcBytes(Crc0, Check)
MaxLen == 72
\* Odd numbers of flipped bits: every unit error has a syndrome of odd weight, sums of an odd number of them too.
RegParity(r) == (Parity(r[1]) + Parity(r[2]) + Parity(r[3]) + Parity(r[4])) % 2
ASSUME \A p \in 1..MaxLen, b \in 0..7 : RegParity(Syndrome(Unit(MaxLen, p, b))) = 1
\* Errors confined to four consecutive bytes: the 32 unit syndromes of every window are independent.
BitAt(r, k) == (r[(k \div 8) + 1] \div NPow2(k % 8)) % 2
RECURSIVE Eliminate(_, _)
Eliminate(vs, k) ==     \* rank of a sequence of registers
  IF k = 32 THEN 0
  ELSE LET piv == {i \in DOMAIN vs : BitAt(vs[i], k) = 1} IN
       IF piv = {} THEN Eliminate(vs, k + 1)
       ELSE LET p == CHOOSE i \in piv : TRUE IN
            1 + Eliminate(TLCEval([i \in DOMAIN vs |-> IF i \in piv THEN XorSeq(vs[i], vs[p]) ELSE vs[i]]), k + 1)
Window(q) == [i \in 1..32 |-> Syndrome(Unit(MaxLen, q + (i - 1) \div 8, (i - 1) % 8))]
ASSUME \A q \in 1..(MaxLen - 3) : Eliminate(TLCEval(Window(q)), 0) = 32

(* ------------------------------- the machine ------------------------------- *)
CONSTANTS MaxOps
Ks == {1, 255, 256}
Ms == {0, 1, 255, 256, 65535}
Ivs == {Zeros(16), [i \in 1..16 |-> 255]}
VARIABLES iv, pool, last, ops
vars == <<iv, pool, last, ops>>
None == [k |-> 0, m |-> 0, c |-> <<>>, crc |-> FALSE, iv |-> Zeros(16)]
Init == iv = Zeros(16) /\ pool = {} /\ last = [e |-> None, k |-> 0, r |-> "0"] /\ ops = 0
Step == ops < MaxOps /\ ops' = ops + 1
SetIv == Step /\ \E v \in Ivs : iv' = v /\ UNCHANGED <<pool, last>>
Enc == Step /\ \E k \in Ks, m \in Ms, crc \in BOOLEAN :
         pool' = pool \cup {[k |-> k, m |-> m, crc |-> crc, iv |-> iv, c |-> Content(NStr(k), iv, IF crc THEN WithCrc(NStr(m)) ELSE NStr(m))]} /\ UNCHANGED <<iv, last>>
Dec == Step /\ \E e \in pool, k \in Ks :
         last' = [e |-> e, k |-> k, r |-> IF e.crc THEN OpenCrc(NStr(k), iv, e.c) ELSE Open(NStr(k), iv, e.c)] /\ UNCHANGED <<iv, pool>>
Next == SetIv \/ Enc \/ Dec
Spec == Init /\ [][Next]_vars
\* What was encrypted opens under its key and counter; a checked ciphertext opens under no other key.
Opens == (last.e.iv = iv /\ last.k = last.e.k) => last.r = NStr(last.e.m)
OnlyThen == (last.e.crc /\ last.e.m > 0 /\ last.e.iv = iv /\ last.k # last.e.k) => last.r = "0"
Inv == Opens /\ OnlyThen
=============================================================================
