------------------------------ MODULE Trace_Sym ------------------------------
(* Recorded runs of the real ciphers, checksums, conversions and random integers against Sym. *)
EXTENDS Sym, Dist, TraceBase

VARIABLES iv, pool, hist, seen,
          prev, rel            \* the random integer before, and how shorter ones compare with its lowest, second and highest bits
svars == <<iv, pool, hist, seen, prev, rel>>
NoPrev == [bits |-> 0, v |-> "0"]
NoRel == <<EmptyHist, EmptyHist, EmptyHist>>
TInit == l = 1 /\ iv = Zeros(16) /\ pool = <<>> /\ hist = EmptyHist /\ seen = {} /\ prev = NoPrev /\ rel = NoRel

\* The last n bytes of an integer (zeros in front when it is shorter) and what lies above them.
Low(v, n) == Last(Pad(NBytes(v), n), n)
Above(v, n) == NShr(v, 8 * n)

Start(e) == iv' = Zeros(16) /\ pool' = <<>> /\ hist' = EmptyHist /\ seen' = {} /\ prev' = NoPrev /\ rel' = NoRel
InitIv(e) == iv' = [i \in 1..16 |-> IF i <= Len(e.iv) THEN e.iv[i] ELSE 0] /\ UNCHANGED <<pool, hist, seen, prev, rel>>
\* Encryptions: the ciphertext ends with the encrypted bytes; at most one byte (a length marker) precedes them.
Encrypt(e, m) ==
  LET c == Content(e.key, iv, m)  n == Len(c) IN
  /\ Low(e.ret, n) = c /\ NLt(Above(e.ret, n), 256)
  /\ pool' = Append(pool, c) /\ UNCHANGED <<iv, hist, seen, prev, rel>>
\* Decryptions of a stored ciphertext with an error pattern within its content.
Decrypt(e, F(_, _, _)) ==
  LET c == pool[e.i]  n == Len(c)  m == XorSeq(c, Low(e.err, n)) IN
  /\ NLt(e.err, NShl("1", 8 * n))
  /\ e.ret = F(e.key, iv, m) /\ UNCHANGED svars

Crc(e) == e.ret = NumOf(CrcBytes(RegOf(e.start), e.bytes)) /\ UNCHANGED svars
RoundTrip(e) ==
  LET a == WithCrc(e.n) IN
  /\ e.sum = a /\ e.ok /\ e.back = e.n
  /\ Len(e.errors) = Len(e.accepted)
  /\ \A i \in DOMAIN e.errors :
       LET n == 4 + Len(NBytes(e.n)) + Len(NBytes(e.errors[i]))
           x == XorSeq(Low(a, n), Low(e.errors[i], n)) IN
       e.accepted[i] = ValidCrc(NStr(NFromBytes(x)))
  /\ UNCHANGED svars
\* A random integer after a longer one: its difference to any part of that one is as random as the integer itself.
Part(v, from, w) == NMod(NShr(v, from), NShl("1", w))
Related(e) ==
  IF prev.bits > e.bits /\ e.bits >= 8
  THEN \A w \in {e.bits} : \A m \in {NShl("1", w)} :
         rel' = [k \in 1..3 |-> Count(rel[k], NMod(NAdd(m, NSub(e.ret, Part(prev.v, CASE k = 1 -> 0 [] k = 2 -> w [] k = 3 -> prev.bits - w, w))), m), m)]
  ELSE UNCHANGED rel
Rand(e) ==
  /\ Related(e) /\ prev' = [bits |-> e.bits, v |-> e.ret]
  /\ NLe("0", e.ret) /\ NLt(e.ret, NShl("1", e.bits))
  /\ hist' = IF e.bits >= 9 THEN Count(hist, e.ret, NShl("1", e.bits)) ELSE hist
  /\ IF e.bits >= 112 THEN e.ret \notin seen /\ seen' = seen \cup {e.ret} ELSE UNCHANGED seen
  /\ UNCHANGED <<iv, pool>>

Explained(e) ==
  CASE e.op = "start" /\ ("fresh" \notin DOMAIN e \/ ~e.fresh) -> Start(e)
    [] e.op = "start" -> UNCHANGED svars                 \* another process: what was seen must not come again
    [] e.op = "init" -> InitIv(e)
    [] e.op = "enc" -> Encrypt(e, e.m)
    [] e.op = "enccrc" -> Encrypt(e, WithCrc(e.m))
    [] e.op = "dec" -> Decrypt(e, Open)
    [] e.op = "deccrc" -> Decrypt(e, OpenCrc)
    [] e.op \in {"crc", "pieces"} -> Crc(e)
    [] e.op = "append" -> e.ret = WithCrc(e.n) /\ UNCHANGED svars
    [] e.op = "valid" -> e.ret = ValidCrc(e.n) /\ UNCHANGED svars
    [] e.op = "remove" -> e.ret = NoCrc(e.n) /\ UNCHANGED svars
    [] e.op = "roundtrip" -> RoundTrip(e)
    [] e.op = "raw" -> e.ret = NBytes(e.n) /\ UNCHANGED svars
    [] e.op = "raws" -> Len(e.rets) = Len(e.ns) /\ (TRUE = \A i \in DOMAIN e.ns : e.rets[i] = NBytes(e.ns[i])) /\ UNCHANGED svars
    [] e.op = "unraw" -> e.ret = NStr(NFromBytes(e.bytes)) /\ UNCHANGED svars
    [] e.op = "rand" -> Rand(e)
    [] e.op = "spread" -> (IF e.what = "pairs" THEN TRUE = (\A k \in 1..3 : WellSpread(rel[k])) ELSE WellSpread(hist)) /\ UNCHANGED svars
    [] e.op = "distrand" -> SameDistribution(e, [x \in 0..(NPow2(e.bits) - 1) |-> x]) /\ UNCHANGED svars
TNext == More /\ Explained(Ev) /\ Advance
TSpec == TInit /\ [][TNext]_<<svars, l>>
=============================================================================
