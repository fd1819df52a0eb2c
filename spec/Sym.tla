-------------------------------- MODULE Sym --------------------------------
(***************************************************************************)
(* Symmetric primitives on byte sequences: AES-128 (FIPS 197), its counter *)
(* mode (SP 800-38A) and CRC-32C (reflected Castagnoli polynomial, no      *)
(* final inversion).  The definitions are the reference; AesBlock and      *)
(* CrcBytes are evaluated by java/vnum (javax.crypto, a bitwise loop) and  *)
(* MC_Sym compares the two.  A checksum register is a sequence of four     *)
(* bytes, least significant first.                                         *)
(***************************************************************************)
EXTENDS Num, Bitwise, TLC

Zeros(n) == [i \in 1..n |-> 0]
XorSeq(a, b) == [i \in DOMAIN a |-> a[i] ^^ b[i]]
Last(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
Pad(s, n) == IF Len(s) >= n THEN s ELSE Zeros(n - Len(s)) \o s
Parity(b) == ((b % 2) + ((b \div 2) % 2) + ((b \div 4) % 2) + ((b \div 8) % 2) + ((b \div 16) % 2)
              + ((b \div 32) % 2) + ((b \div 64) % 2) + ((b \div 128) % 2)) % 2

(* --------------------------------- AES-128 --------------------------------- *)
Xtime(b) == IF b < 128 THEN 2 * b ELSE ((2 * b) % 256) ^^ 27
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0 ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(Xtime(a), b \div 2)
RECURSIVE GPow(_, _)
GPow(a, k) == IF k = 0 THEN 1 ELSE LET h == GPow(a, k \div 2)  s == GMul(h, h) IN IF k % 2 = 1 THEN GMul(s, a) ELSE s
Rotl8(b, k) == ((b * NPow2(k)) % 256) + ((b * NPow2(k)) \div 256)
SBoxOf(x) == LET i == GPow(x, 254) IN ((i ^^ Rotl8(i, 1)) ^^ (Rotl8(i, 2) ^^ Rotl8(i, 3))) ^^ (Rotl8(i, 4) ^^ 99)
SBox == TLCEval([x \in 0..255 |-> SBoxOf(x)])

\* State bytes are in column order, as in the block.
SubBytes(s) == [i \in 1..16 |-> SBox[s[i]]]
ShiftRows(s) == [i \in 1..16 |-> LET r == (i - 1) % 4  col == (i - 1) \div 4 IN s[4 * ((col + r) % 4) + r + 1]]
MixColumns(s) ==
  [i \in 1..16 |-> LET r == (i - 1) % 4  b == 4 * ((i - 1) \div 4) + 1  at(k) == s[b + ((r + k) % 4)]
                   IN (GMul(at(0), 2) ^^ GMul(at(1), 3)) ^^ (at(2) ^^ at(3))]
\* Round keys: sequence of 176 bytes.
RECURSIVE Expand(_, _)
Expand(w, rcon) ==
  IF Len(w) = 176 THEN w
  ELSE LET t == Last(w, 4)
           u == <<SBox[t[2]] ^^ rcon, SBox[t[3]], SBox[t[4]], SBox[t[1]]>>
           p == SubSeq(w, Len(w) - 15, Len(w))
           w1 == XorSeq(u, SubSeq(p, 1, 4))
           w2 == XorSeq(w1, SubSeq(p, 5, 8))
           w3 == XorSeq(w2, SubSeq(p, 9, 12))
           w4 == XorSeq(w3, SubSeq(p, 13, 16))
       IN Expand(TLCEval(w \o w1 \o w2 \o w3 \o w4), Xtime(rcon))
RoundKey(w, r) == SubSeq(w, 16 * r + 1, 16 * r + 16)
RECURSIVE Rounds(_, _, _)
Rounds(s, w, r) ==
  IF r = 10 THEN XorSeq(ShiftRows(SubBytes(s)), RoundKey(w, 10))
  ELSE Rounds(TLCEval(XorSeq(MixColumns(TLCEval(ShiftRows(SubBytes(s)))), RoundKey(w, r))), w, r + 1)
AesBlockRef(key, in) == LET w == TLCEval(Expand(key, 1)) IN Rounds(TLCEval(XorSeq(in, RoundKey(w, 0))), w, 1)
AesBlock(key, in) == AesBlockRef(key, in)

\* The counter plus one: 128-bit big-endian addition.
RECURSIVE Inc(_)
Inc(c) == IF c = <<>> THEN <<>>
          ELSE LET h == SubSeq(c, 1, Len(c) - 1) IN
               IF c[Len(c)] < 255 THEN Append(h, c[Len(c)] + 1) ELSE Append(Inc(h), 0)
RECURSIVE KeyStream(_, _, _)
KeyStream(key, ctr, n) == IF n <= 0 THEN <<>> ELSE AesBlock(key, ctr) \o KeyStream(key, TLCEval(Inc(ctr)), n - 16)
\* Encryption and decryption of bytes with counter mode.
CtrRef(key, iv, m) == LET ks == TLCEval(KeyStream(key, iv, Len(m))) IN [i \in DOMAIN m |-> m[i] ^^ ks[i]]
Ctr(key, iv, m) == CtrRef(key, iv, m)

(* --------------------------------- CRC-32C --------------------------------- *)
PolyLE == <<120, 59, 246, 130>>               \* 0x82F63B78
CrcBit(r) ==
  LET s == <<r[1] \div 2 + 128 * (r[2] % 2), r[2] \div 2 + 128 * (r[3] % 2), r[3] \div 2 + 128 * (r[4] % 2), r[4] \div 2>>
  IN IF r[1] % 2 = 1 THEN XorSeq(s, PolyLE) ELSE s
CrcByte(r, b) == CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(CrcBit(<<r[1] ^^ b, r[2], r[3], r[4]>>))))))))
RECURSIVE CrcRef(_, _)
CrcRef(r, s) == IF s = <<>> THEN r ELSE CrcRef(TLCEval(CrcByte(r, Head(s))), Tail(s))
CrcBytes(r, s) == CrcRef(r, s)
Crc0 == <<0, 0, 0, 0>>
\* Register <-> number
Rev4(r) == <<r[4], r[3], r[2], r[1]>>
RegOf(v) == Rev4(Pad(NBytes(v), 4))
NumOf(r) == NStr(NFromBytes(Rev4(r)))

(* ------------------------- integers with checksums ------------------------- *)
\* The checksum follows the bytes of the integer, least significant byte first.
WithCrc(n) == LET b == NBytes(n) IN NStr(NFromBytes(b \o CrcBytes(Crc0, b)))
\* Integers shorter than a checksum are an empty message (checksum 0) and its checksum.
ValidCrc(v) == LET b == Pad(NBytes(v), 4)  m == SubSeq(b, 1, Len(b) - 4) IN CrcBytes(Crc0, m) = Last(b, 4)
NoCrc(v) == LET b == Pad(NBytes(v), 4) IN NStr(NFromBytes(SubSeq(b, 1, Len(b) - 4)))

(* ------------------------ encryption of integers --------------------------- *)
KeyBytes(k) == Pad(NBytes(k), 16)
\* Content of the ciphertext of m: as many bytes as m has.
Content(key, iv, m) == Ctr(KeyBytes(key), iv, NBytes(m))
\* Message of a ciphertext content, and with the checksum verified (0: failure).
Open(key, iv, content) == NStr(NFromBytes(Ctr(KeyBytes(key), iv, content)))
OpenCrc(key, iv, content) == LET v == Open(key, iv, content) IN IF ValidCrc(v) THEN NoCrc(v) ELSE "0"
=============================================================================
