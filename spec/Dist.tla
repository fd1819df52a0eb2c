-------------------------------- MODULE Dist --------------------------------
(***************************************************************************)
(* Distributions.  A random computation of the specification is a function *)
(* from its (uniform) random choices to outcomes.  The code's distribution *)
(* is recorded as a sequence of <<outcome, count>>: either over all values *)
(* of everything the code drew (exact), or over many seeded runs (sampled, *)
(* when the draws of the code cannot be enumerated).                       *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

\* outcome -> number of choices leading to it
WeightsRef(f) == LET img == {f[x] : x \in DOMAIN f}
                 IN [o \in img |-> Cardinality({x \in DOMAIN f : f[x] = o})]
Weights(f) == WeightsRef(f)              \* evaluated by java/vnum; MC_Num compares

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumBal(_, _, _)
SumBal(s, a, b) == IF a > b THEN 0 ELSE IF a = b THEN s[a]
                   ELSE LET m == (a + b) \div 2 IN SumBal(s, a, m) + SumBal(s, m + 1, b)

\* got of tot trials, each of probability o/n, are within z standard deviations (where 20 of either kind are expected)
Within(got, tot, o, n, z) ==
  LET q == NSub(n, o)  d == NSub(NMul(got, n), NMul(tot, o))
  IN \/ NLt(NMul(tot, o), NMul(20, n)) \/ NLt(NMul(tot, q), NMul(20, n))
     \/ NLe(NMul(d, d), NMul(NMul(z * z, tot), NMul(o, q)))

\* The number of outcomes o of tot equally likely choices, w of which lead to o, in all runs: exactly what is expected, or
\* (sampled) within eight standard deviations; the sum of the squared deviations is as expected, too.
Sq(a) == NMul(a, a)
Deviation(got, w, tot, all) == NSub(NMul(got, tot), NMul(w, all))
Scaled(got, w, tot, all) == NDiv(NMul(1000, Sq(Deviation(got, w, tot, all))), NMul(NMul(w, all), tot))
RECURSIVE NSumSeq(_, _, _)
NSumSeq(s, a, b) == IF a > b THEN 0 ELSE IF a = b THEN s[a]
                    ELSE LET m == (a + b) \div 2 IN NAdd(NSumSeq(s, a, m), NSumSeq(s, m + 1, b))
Sampled(rec, w, tot, all) ==
  \A n \in {Len(rec)}, df \in {Cardinality(DOMAIN w)} :
  \A there \in {SumBal([i \in 1..n |-> w[rec[i][1]]], 1, n)} :
    /\ \A i \in 1..n : \A p \in {NStr(w[rec[i][1]])} : Within(NStr(rec[i][2]), all, p, tot, 8)
    /\ \A o \in DOMAIN w : NLe(NMul(40, tot), NMul(NStr(w[o]), all)) => \E i \in 1..n : rec[i][1] = o
    /\ (\A o \in DOMAIN w : NLe(NMul(8, tot), NMul(NStr(w[o]), all))) =>
         \A chi \in {NInt(NDiv(NAdd(NSumSeq([i \in 1..n |-> Scaled(NStr(rec[i][2]), NStr(w[rec[i][1]]), tot, all)], 1, n),
                                    NDiv(NMul(NMul(1000, all), NSub(tot, there)), tot)), 1000))} :
           chi <= df + 40 \/ (chi - df - 40) * (chi - df - 40) <= 128 * df

SameDistribution(e, f) ==
  TRUE = \A w \in {Weights(f)}, rec \in {e.outcomes} : \A tot \in {NStr(Cardinality(DOMAIN f))} :
  \A all \in {NStr(SumBal([i \in DOMAIN rec |-> rec[i][2]], 1, Len(rec)))} :
    /\ \A i \in DOMAIN rec : rec[i][1] \in DOMAIN w
    /\ IF e.exact THEN /\ Len(rec) = Cardinality(DOMAIN w)
                       /\ \A i \in DOMAIN rec : NEq(NMul(NStr(rec[i][2]), tot), NMul(NStr(w[rec[i][1]]), all))
       ELSE Sampled(rec, w, tot, all)

(***************************************************************************)
(* Full-size values 0..n-1 cannot be enumerated.  The values of a kind are *)
(* kept, with their bound n; a uniform source passes the following tests   *)
(* except with a probability below 10^-6 in all runs of all checks.        *)
(***************************************************************************)
EmptyHist == [n |-> 0, vs |-> <<>>]
Count(h, v, n) == [n |-> n, vs |-> Append(h.vs, v)]
HTotal(h) == Len(h.vs)

\* how often each of the lowest w bits is set, and how often it is the same as in the value before
BitCountsRef(vs, w) ==
  <<[k \in 1..w |-> Cardinality({i \in DOMAIN vs : NBit(vs[i], k - 1) = 1})],
    [k \in 1..w |-> Cardinality({i \in 2..Len(vs) : NBit(vs[i], k - 1) = NBit(vs[i - 1], k - 1)})]>>
BitCounts(vs, w) == BitCountsRef(vs, w)          \* evaluated by java/vnum; MC_Num compares
\* the largest difference between how often two bits of a value are the same and how often they differ
PairDevRef(vs, K) ==
  LET same(j, k) == Cardinality({i \in DOMAIN vs : NBit(vs[i], j) = NBit(vs[i], k)})
      dev == {LET d == 2 * same(j, k) - Len(vs) IN IF d < 0 THEN 0 - d ELSE d : <<j, k>> \in {p \in K \X K : p[1] < p[2]}}
  IN IF dev = {} THEN 0 ELSE CHOOSE d \in dev : \A x \in dev : x <= d
PairDev(vs, K) == PairDevRef(vs, K)              \* evaluated by java/vnum; MC_Num compares

\* of 0..n-1, how many have bit k
OnesAt(n, k) == LET p == NShl("1", k)  r == NMod(n, NShl("1", k + 1))
              IN NAdd(NMul(NDiv(n, NShl("1", k + 1)), p), IF NLt(p, r) THEN NSub(r, p) ELSE 0)
Bucket(v, n, w) == {NInt(NDiv(NMul(v, 8), n)), 8 + NInt(NMod(NShr(v, w \div 2), 8)), 16 + NInt(NMod(v, 8))}
\* With 200 values: leading, middle and trailing three bits take all values, none takes more than half of them;
\* each bit is set, and is as in the value before, about as often as it should; no two bits go together.
BitsOk(N, n, ones, bc, w) ==
  /\ \A k \in 1..w : Within(bc[1][k], N, ones[k], n, 7)
  /\ \A nn \in {NMul(n, n)}, k \in 1..w : \A o \in {ones[k]} : \A q \in {NSub(n, o)} :
        Within(bc[2][k], N - 1, NAdd(NMul(o, o), NMul(q, q)), nn, 9)
\* the bits that are even and independent of each other up to one part in five hundred
EvenBits(n, w) == IF NLt(NMul(1024, NSub(NShl("1", w), n)), n) THEN 0..(w - 1) ELSE 0..(w - 11)
WellSpread(h) ==                                  \* (a bound variable with one value is evaluated once)
  TRUE = \A vs \in {h.vs}, n \in {h.n} : \A N \in {Len(vs)}, w \in {NBitLen(NSub(n, 1))} :
    /\ N >= 200
    /\ \A bk \in {TLCEval([i \in 1..N |-> TLCEval(Bucket(vs[i], n, w))])} : \A b \in 0..23 :
         \A x \in {Cardinality({i \in 1..N : b \in bk[i]})} : x > 0 /\ 2 * x < N
    /\ \A ones \in {TLCEval([k \in 1..w |-> OnesAt(n, k - 1)])} :
         /\ \A bc \in {BitCounts(vs, w)} : BitsOk(N, n, ones, bc, w)
         /\ \A pd \in {PairDev(vs, EvenBits(n, w))} : pd * pd <= 64 * N
=============================================================================
