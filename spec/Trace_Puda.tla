------------------------------ MODULE Trace_Puda ------------------------------
(* Recorded set-ups and rounds of the real code against PudaM. *)
EXTENDS PudaM, Curves, TraceBase
VARIABLES objs,     \* object -> [s, gen, base: time stamp -> point]
          cts,      \* encryptions: [o, gen, u, t, m, ct, tag]
          fresh, seen, hist
tvars == <<objs, cts, fresh, seen, hist, l>>
C == ThisCurve
\* Verify accepts everything (a listed finding): the environment says whether it may.
Stub == "STUB" \in DOMAIN IOEnv

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Range(s) == {s[i] : i \in DOMAIN s}
SetupRec(e) == SetupOf(e.ek, e.tk, e.a[1], C)
RECURSIVE CountSeq(_, _)
CountSeq(h, s) == IF s = <<>> THEN h ELSE CountSeq(Count(h, s[1], C.n), Tail(s))
NoHist == [k \in {"ek", "tk", "a"} |-> EmptyHist]
Setup(e) ==
  LET s == TLCEval(SetupRec(e))
      sc == e.ek \o e.tk \o <<e.a[1]>>
      D == {NMod(e.draws[i], C.n) : i \in DOMAIN e.draws}
  IN /\ Len(e.ek) = e.n /\ Len(e.tk) = e.n /\ Len(e.a) = e.n
     /\ \A i \in DOMAIN e.a : e.a[i] = e.a[1]
     /\ \A i \in DOMAIN sc : NLt(sc[i], C.n)
     /\ e.ak = s.ak /\ e.vk1 = s.vk1 /\ e.vk2 = s.vk2
     \* independent scalars from the random source, never used before
     /\ fresh => /\ Cardinality(Range(sc)) = Len(sc) /\ Range(sc) \cap seen = {}
                 /\ Range(sc) \subseteq D /\ Cardinality(D) > Len(sc)
                 /\ e.h1 # Inf
     /\ seen' = IF fresh THEN seen \cup Range(sc) ELSE seen
     /\ hist' = IF fresh THEN [hist EXCEPT !["ek"] = CountSeq(@, e.ek), !["tk"] = CountSeq(@, e.tk), !["a"] = Count(@, e.a[1], C.n)] ELSE hist
     /\ objs' = Put(objs, e.o, [s |-> s, gen |-> l, base |-> 1 :> e.h1])
     /\ UNCHANGED <<cts, fresh>>

Enc(e) ==
  LET o == objs[e.o] IN
  \* one base point per time stamp and set-up; different time stamps have different ones, 0 alone may have none
  /\ e.t \in DOMAIN o.base => e.base = o.base[e.t]
  /\ fresh /\ e.t # 0 => e.base # Inf
  /\ fresh => \A t \in DOMAIN o.base : t # e.t => o.base[t] # e.base
  /\ objs' = [objs EXCEPT ![e.o].base = Put(@, e.t, e.base)]
  /\ e.ct = EncP(e.base, o.s.ek[e.u], e.m, C)
  /\ cts' = Append(cts, [o |-> e.o, gen |-> o.gen, u |-> e.u, t |-> e.t, m |-> e.m, tag |-> e.tag])
  /\ UNCHANGED <<fresh, seen, hist>>

\* xs names one ciphertext of every user for this set-up and time stamp.
Full(xs, o, oid, t) ==
  /\ \A i \in DOMAIN xs : LET x == cts[xs[i]] IN x.o = oid /\ x.gen = o.gen /\ x.t = t
  /\ Len(xs) = Len(o.s.ek)
  /\ {cts[xs[i]].u : i \in DOMAIN xs} = DOMAIN o.s.ek
SumOf(xs) == SumBal([i \in DOMAIN xs |-> cts[xs[i]].m], 1, Len(xs))
\* The certified tag of a sum: the aggregate, with the logarithms of the public verification key.
Tag(o, t, sum) == CertTag(o.base[t], NSum(o.s.tk, C.n), o.s.a, sum, C)
Agg(e) ==
  LET o == objs[e.o]
      full == TLCEval(Full(e.xs, o, e.o, e.t) /\ SumOf(e.xs) <= MaxSum)
      fullT == TLCEval(Full(e.ys, o, e.o, e.t))
  IN /\ full => e.sum = SumOf(e.xs)
     /\ fullT => e.tag = Tag(o, e.t, SumOf(e.ys))
     /\ full /\ fullT /\ SumOf(e.xs) = SumOf(e.ys) => e.ok
     /\ UNCHANGED <<objs, cts, fresh, seen, hist>>
Verify(e) ==
  LET o == objs[e.o]  right == TLCEval(e.tag = Tag(o, e.t, e.sum)) IN
  /\ IF right THEN e.ok ELSE e.ok = Stub
  /\ UNCHANGED <<objs, cts, fresh, seen, hist>>
\* A long run of set-ups: no scalar comes twice.
Many(e) == /\ TRUE = \A S \in {Range(e.vs)} : Cardinality(S) = Len(e.vs) /\ S \cap seen = {} /\ \A v \in S : NLt(v, C.n)
           /\ seen' = seen \cup Range(e.vs) /\ UNCHANGED <<objs, cts, fresh, hist>>
Spread(e) == WellSpread(hist[e.what]) /\ UNCHANGED <<objs, cts, fresh, seen, hist>>

(* ---- exact distributions ---- *)
Z == 0..(C.n - 1)
Setups(n) == Z \X [1..n -> Z] \X [1..n -> Z] \X Z
DistSetup(e) ==
  /\ SameDistribution(e, [x \in Setups(e.n) |->
        LET s == SetupOf(x[2], x[3], x[4], C) IN
        <<PMul(x[1], Gen(C), C), s.ek, s.tk, [i \in 1..e.n |-> s.a], s.ak, s.vk1, s.vk2>>])
  /\ UNCHANGED <<objs, cts, fresh, seen, hist>>
\* Ciphertexts of some users, jointly with the aggregator's key.
DistEnc(e) ==
  /\ SameDistribution(e, [x \in Z \X [1..e.n -> Z] |->
        LET H == PMul(e.t, PMul(x[1], Gen(C), C), C) IN
        <<H, NMod(0 - NSum(x[2], C.n), C.n), [i \in DOMAIN e.us |-> EncP(H, x[2][e.us[i]], e.ms[i], C)]>>])
  /\ UNCHANGED <<objs, cts, fresh, seen, hist>>

TInit == l = 1 /\ objs = <<>> /\ cts = <<>> /\ fresh = FALSE /\ seen = {} /\ hist = NoHist
TNext ==
  /\ More
  /\ LET e == Ev IN
     CASE e.op = "start" -> fresh' = e.fresh /\ objs' = <<>> /\ cts' = <<>> /\ UNCHANGED <<seen, hist>>
       [] e.op = "object" -> UNCHANGED <<objs, cts, fresh, seen, hist>>
       [] e.op = "setup" -> Setup(e)
       [] e.op = "enc" -> Enc(e)
       [] e.op = "agg" -> Agg(e)
       [] e.op = "verify" -> Verify(e)
       [] e.op = "many" -> Many(e)
       [] e.op = "spread" -> Spread(e)
       [] e.op = "distsetup" -> DistSetup(e)
       [] e.op = "distenc" -> DistEnc(e)
       [] OTHER -> FALSE
  /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
