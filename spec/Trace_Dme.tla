------------------------------ MODULE Trace_Dme ------------------------------
(***************************************************************************)
(* Recorded runs of encryption instances, transfers and aggregations       *)
(* (D01-D04, O01-O03) against DmeM.                                        *)
(*                                                                         *)
(* Instances and their reference strings are named by integers, keys,      *)
(* ciphertexts, selections and transfers are numbered in order of          *)
(* appearance.                                                             *)
(***************************************************************************)
EXTENDS DmeM, Curves, TraceBase
VARIABLES inst,     \* instance -> [crs, mode, e (logarithms of h0, h1 in messy mode)]
          keys,     \* [crs, pk, sk, b]: b = 0, 1, or 9 for keys that open no branch
          cts,      \* [crs, pk, b, m (a point, or the integer it carries), ct]
          recv, sndr, prxy,   \* object -> reference string; receivers also remember their selection
          sels,     \* [crs, b, pk]
          xfers,    \* [crs, sel, m0, m1 (points), i0, i1 (integers or "none")]
          fresh, seen, hist
svars == <<recv, sndr, prxy, sels, xfers>>
dvars == <<inst, keys, cts>>
rvars == <<fresh, seen, hist>>
tvars == <<dvars, svars, rvars, l>>

C == ThisCurve
\* Recorded draw i as a scalar.
D(e, i) == NMod(e.draws[i], C.n)
Idx(e) == DOMAIN e.draws
\* Scalars used for the first time, all different (when the random source is the library's own).
NewScalars(vs) ==
  /\ fresh => Cardinality({vs[i] : i \in DOMAIN vs}) = Len(vs) /\ {vs[i] : i \in DOMAIN vs} \cap seen = {}
  /\ seen' = IF fresh THEN seen \cup {vs[i] : i \in DOMAIN vs} ELSE seen
  /\ UNCHANGED fresh
Kinds == {"crs", "sk", "s", "t", "s1", "t1"}
Hist2(h, what, v) == [h EXCEPT ![what] = Count(@, v, C.n)]
HistV(whats, vs) == hist' = IF ~fresh THEN hist
                            ELSE IF Len(vs) = 1 THEN Hist2(hist, whats[1], vs[1])
                            ELSE IF Len(vs) = 2 THEN Hist2(Hist2(hist, whats[1], vs[1]), whats[2], vs[2])
                            ELSE Hist2(Hist2(Hist2(Hist2(hist, whats[1], vs[1]), whats[2], vs[2]), whats[3], vs[3]), whats[4], vs[4])
G(k) == PMul(k, Gen(C), C)

(* ------------------------------ instances ------------------------------ *)
Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* An exponent of the point at infinity may be any.
Exp(P, k) == IF IsInf(P) THEN NMul(k, 0) ELSE k
New(e) ==
  /\ \E i \in Idx(e) :
     /\ e.crs[1] = G(e.draws[i])
     /\ IF e.mode = "messy"
        THEN \E j \in Idx(e) \ {i} : /\ e.crs[2] = G(e.draws[j])
             /\ \E a \in Idx(e) \ {i, j} : /\ e.crs[3] = PMul(e.draws[a], e.crs[1], C)
                /\ \E b \in Idx(e) \ {i, j, a} :
                   /\ e.crs[4] = PMul(e.draws[b], e.crs[2], C)
                   /\ inst' = Set(inst, e.i, [crs |-> e.crs, mode |-> "messy", e |-> <<Exp(e.crs[1], D(e, a)), Exp(e.crs[2], D(e, b))>>])
                   /\ LET vs == <<D(e, i), D(e, j), D(e, a), D(e, b)>> IN NewScalars(vs) /\ HistV(<<"crs", "crs", "sk", "t">>, vs)
        ELSE \E y \in Idx(e) \ {i} : /\ e.crs[2] = PMul(e.draws[y], e.crs[1], C)
             /\ \E x \in Idx(e) \ {i, y} :
                /\ e.crs[3] = PMul(e.draws[x], e.crs[1], C) /\ e.crs[4] = PMul(e.draws[x], e.crs[2], C)
                /\ inst' = Set(inst, e.i, [crs |-> e.crs, mode |-> "dec", e |-> <<Exp(e.crs[1], D(e, y))>>])
                /\ LET vs == <<D(e, i), D(e, y)>> IN
                   NewScalars(vs \o <<D(e, x)>>) /\ HistV(<<"crs", "crs">>, vs)
  /\ UNCHANGED <<keys, cts, svars>>
\* Four independent random points.
AnyCrs(e) ==
  /\ \E i \in Idx(e) : e.crs[1] = G(e.draws[i]) /\
     \E j \in Idx(e) \ {i} : e.crs[2] = G(e.draws[j]) /\
     \E a \in Idx(e) \ {i, j} : e.crs[3] = G(e.draws[a]) /\
     \E b \in Idx(e) \ {i, j, a} : e.crs[4] = G(e.draws[b]) /\
     LET vs == <<D(e, i), D(e, j), D(e, a), D(e, b)>> IN NewScalars(vs) /\ HistV(<<"crs", "crs", "crs", "crs">>, vs)
  /\ inst' = Set(inst, e.i, [crs |-> e.crs, mode |-> "any", e |-> <<>>]) /\ UNCHANGED <<keys, cts, svars>>
Import(e) == /\ e.crs = inst[e.j].crs
             /\ inst' = Set(inst, e.i, [crs |-> e.crs, mode |-> "any", e |-> <<>>]) /\ UNCHANGED <<keys, cts, svars, rvars>>
ImportRaw(e) == inst' = Set(inst, e.i, [crs |-> e.crs, mode |-> "any", e |-> <<>>]) /\ UNCHANGED <<keys, cts, svars, rvars>>
Dup(e) == e.crs = inst[e.j].crs /\ inst' = Set(inst, e.i, inst[e.j]) /\ UNCHANGED <<keys, cts, svars, rvars>>

(* -------------------------------- keys --------------------------------- *)
Key(cr, pk, sk, b) == [crs |-> cr, pk |-> pk, sk |-> sk, b |-> b]
KeyGen(e) == LET I == inst[e.i] IN
  /\ \E i \in Idx(e) : D(e, i) = e.sk
  /\ e.pk = PkOf(I.crs, e.b, e.sk, C)
  /\ keys' = Append(keys, Key(I.crs, e.pk, e.sk, e.b))
  /\ NewScalars(<<e.sk>>) /\ HistV(<<"sk">>, <<e.sk>>) /\ UNCHANGED <<inst, cts, svars>>
Trap(e) == LET I == inst[e.i] IN
  /\ I.mode = "dec"
  /\ \E i \in Idx(e) : D(e, i) = e.sk0
  /\ e.pk = PkOf(I.crs, 0, e.sk0, C) /\ e.pk = PkOf(I.crs, 1, e.sk1, C)
  /\ keys' = keys \o <<Key(I.crs, e.pk, e.sk0, 0), Key(I.crs, e.pk, e.sk1, 1)>>
  /\ NewScalars(<<e.sk0>>) /\ HistV(<<"sk">>, <<e.sk0>>) /\ UNCHANGED <<inst, cts, svars>>
RawKey(e) == keys' = Append(keys, Key(inst[e.i].crs, e.pk, "1", 9)) /\ UNCHANGED <<inst, cts, svars, rvars>>

(* ----------------------------- ciphertexts ----------------------------- *)
IsIntMsg(m) == "int" \in DOMAIN m
\* The ciphertext ct is an encryption of m for branch b under scalars drawn at i and j.
Encrypts(cr, pk, b, m, ct, e, i, j) ==
  /\ ct[1] = Lin(Base(cr, b), e.draws[i], e.draws[j], C)
  /\ LET P == PSub(ct[2], Lin(pk, e.draws[i], e.draws[j], C), C) IN
     IF IsIntMsg(m) THEN OnCurve(P, C) /\ Carries(P, m.int) ELSE P = m.pt
Plain(pk, ct, m, e, i, j) == IF IsIntMsg(m) THEN PSub(ct[2], Lin(pk, e.draws[i], e.draws[j], C), C) ELSE m.pt
\* In small groups several pairs of draws may explain a ciphertext; on the branch of the key they all give one message.
Enc(e) == LET k == keys[e.k]  cr == inst[e.i].crs IN
  /\ \E sols \in {TLCEval({ij \in Idx(e) \X Idx(e) : ij[1] # ij[2] /\ Encrypts(cr, k.pk, e.b, e.m, e.ct, e, ij[1], ij[2])})} :
     /\ sols # {}
     /\ \E ij \in {CHOOSE q \in sols : TRUE} :
        /\ cts' = Append(cts, [crs |-> cr, pk |-> k.pk, b |-> e.b, m |-> Plain(k.pk, e.ct, e.m, e, ij[1], ij[2]), int |-> IsIntMsg(e.m), ct |-> e.ct])
        /\ LET vs == <<D(e, ij[1]), D(e, ij[2])>> IN NewScalars(vs) /\ HistV(<<"s", "t">>, vs)
  /\ UNCHANGED <<inst, keys, svars>>
Opens(k, x) == k.crs = x.crs /\ k.pk = x.pk /\ k.b = x.b
Dec(e) == LET k == keys[e.k]  x == cts[e.c] IN
  /\ Opens(k, x) => e.pt = x.m
  /\ e.pt = DecOf(k.sk, x.ct, C)
  /\ UNCHANGED <<dvars, svars, rvars>>
DecInt(e) == LET k == keys[e.k]  x == cts[e.c] IN
  /\ Opens(k, x) /\ x.int => Carries(x.m, e.val)
  /\ UNCHANGED <<dvars, svars, rvars>>
\* The inputs stay what they are; what the result opens to is decided when it is decrypted.
Eval(e) == LET a == cts[e.a]  b == cts[e.b] IN
  /\ e.ca = a.ct /\ e.cb = b.ct
  /\ cts' = Append(cts, IF a.crs = b.crs /\ a.pk = b.pk /\ a.b = b.b
                        THEN [a EXCEPT !.m = PAdd(a.m, b.m, C), !.ct = e.ct, !.int = FALSE]
                        ELSE [a EXCEPT !.b = 9, !.ct = e.ct])
  /\ UNCHANGED <<inst, keys, svars, rvars>>
Coding(e) == Carries(e.pt, e.m) /\ OnCurve(e.pt, C) /\ NEq(e.back, e.m) /\ UNCHANGED <<dvars, svars, rvars>>
\* The branch named hides the message: the public key is not a multiple of that branch's base.
Messy(e) == LET I == inst[e.i]  k == keys[e.k]
                bad == {b \in {0, 1} : OnBranch(I.crs, k.pk, b, I.e[b + 1], C)}
            IN /\ I.mode = "messy"
               /\ bad # {0, 1} => e.b \notin bad
               /\ UNCHANGED <<dvars, svars, rvars>>

(* ------------------------------ transfers ------------------------------ *)
NewRecv(e) == recv' = Set(recv, e.r, [crs |-> inst[e.j].crs, sel |-> 0]) /\ UNCHANGED <<dvars, sndr, prxy, sels, xfers, rvars>>
NewSndr(e) == sndr' = Set(sndr, e.s, inst[e.j].crs) /\ UNCHANGED <<dvars, recv, prxy, sels, xfers, rvars>>
NewPrxy(e) == prxy' = Set(prxy, e.p, inst[e.j].crs) /\ UNCHANGED <<dvars, recv, sndr, sels, xfers, rvars>>
Select(e) == LET R == recv[e.r] IN
  /\ e.gb = e.b
  /\ \E i \in Idx(e) : /\ e.pk = PkOf(R.crs, e.b, e.draws[i], C)
                       /\ NewScalars(<<D(e, i)>>) /\ HistV(<<"sk">>, <<D(e, i)>>)
  /\ sels' = Append(sels, [crs |-> R.crs, b |-> e.b, pk |-> e.pk])
  /\ recv' = [recv EXCEPT ![e.r].sel = Len(sels) + 1]
  /\ UNCHANGED <<dvars, sndr, prxy, xfers>>
Send(e) == LET cr == sndr[e.s]  S == sels[e.k]
               sols(b, m) == {ij \in Idx(e) \X Idx(e) : ij[1] # ij[2] /\ Encrypts(cr, S.pk, b, m, e.cts[b + 1], e, ij[1], ij[2])}
           IN
  /\ Len(e.cts) = 2
  /\ \E both \in {TLCEval({q \in sols(0, e.m0) \X sols(1, e.m1) : {q[1][1], q[1][2]} \cap {q[2][1], q[2][2]} = {}})} :
     /\ both # {}
     /\ \E q \in {CHOOSE q \in both : TRUE} :
        /\ LET vs == <<D(e, q[1][1]), D(e, q[1][2]), D(e, q[2][1]), D(e, q[2][2])>> IN NewScalars(vs) /\ HistV(<<"s", "t", "s1", "t1">>, vs)
        /\ xfers' = Append(xfers, [crs |-> cr, sel |-> e.k, m |-> <<Plain(S.pk, e.cts[1], e.m0, e, q[1][1], q[1][2]), Plain(S.pk, e.cts[2], e.m1, e, q[2][1], q[2][2])>>,
                                   int |-> <<IsIntMsg(e.m0), IsIntMsg(e.m1)>>, cts |-> e.cts])
  /\ UNCHANGED <<dvars, recv, sndr, prxy, sels>>
Current(r, x) == recv[r].sel = xfers[x].sel /\ recv[r].crs = xfers[x].crs
Open(e) == /\ Current(e.r, e.x) => e.pt = xfers[e.x].m[sels[recv[e.r].sel].b + 1]
           /\ UNCHANGED <<dvars, svars, rvars>>
OpenInt(e) == LET b == sels[recv[e.r].sel].b + 1 IN
              /\ Current(e.r, e.x) /\ xfers[e.x].int[b] => Carries(xfers[e.x].m[b], e.val)
              /\ UNCHANGED <<dvars, svars, rvars>>
\* All of one selection: the sums of the messages, branch by branch.
Agg(e) == LET X == [i \in DOMAIN e.xs |-> xfers[e.xs[i]]]  S == X[1].sel
              sum(b) == PSum([i \in DOMAIN X |-> X[i].m[b]], C)
          IN /\ \A i \in DOMAIN X : X[i].sel = S /\ X[i].crs = prxy[e.p]
             /\ Len(e.cts) = 2
             /\ \A i \in DOMAIN X : e.ins[i] = X[i].cts
             /\ xfers' = Append(xfers, [crs |-> prxy[e.p], sel |-> S, m |-> <<sum(1), sum(2)>>, int |-> <<FALSE, FALSE>>, cts |-> e.cts])
             /\ UNCHANGED <<dvars, recv, sndr, prxy, sels, rvars>>

(* ------------------ distributions on small curves ---------------------- *)
N0 == 0..(C.n - 1)
Unch == UNCHANGED <<dvars, svars, rvars>>
DistEnc(e) == /\ SameDistribution(e, [st \in N0 \X N0 |-> EncOf(e.crs, e.pk, e.b, e.m, st[1], st[2], C)]) /\ Unch
DistKey(e) == /\ SameDistribution(e, [sk \in N0 |-> <<PkOf(e.crs, e.b, sk, C), sk>>]) /\ Unch
DistSelect(e) == /\ SameDistribution(e, [sk \in N0 |-> PkOf(e.crs, e.b, sk, C)]) /\ Unch
DistSend(e) == /\ SameDistribution(e, [st \in (N0 \X N0) \X (N0 \X N0) |->
                     <<EncOf(e.crs, e.pk, 0, e.m0, st[1][1], st[1][2], C), EncOf(e.crs, e.pk, 1, e.m1, st[2][1], st[2][2], C)>>]) /\ Unch
Q4 == (N0 \X N0) \X (N0 \X N0)
DistCrs(e) == /\ SameDistribution(e,
                   IF e.mode = "messy" THEN [q \in Q4 |-> MessyCrs(G(q[1][1]), G(q[1][2]), q[2][1], q[2][2], C)]
                   ELSE IF e.mode = "any" THEN [q \in Q4 |-> <<G(q[1][1]), G(q[1][2]), G(q[2][1]), G(q[2][2])>>]
                   ELSE [q \in (N0 \X N0) \X N0 |-> DecCrs(G(q[1][1]), q[1][2], q[2], C)]) /\ Unch
DistTrap(e) == /\ SameDistribution(e,
                   [q \in Q4 |-> LET cr == DecCrs(G(q[1][1]), q[1][2], q[2][1], C)  r == q[2][2] IN
                     IF IsInf(cr[2]) THEN <<<<>>, <<>>, <<>>, <<>>>>
                     ELSE <<cr, PkOf(cr, 0, r, C), r, FDiv(r, q[1][2], C.n)>>]) /\ Unch
\* For every proper reference string and every public key the answer is a hiding branch.
Log(P, B) == CHOOSE k \in N0 : PMul(k, B, C) = P
MessyAnswers(cr, ans, pts) ==
  LET n == Len(pts)  e0 == Log(cr[3], cr[1])  e1 == Log(cr[4], cr[2]) IN
  Len(ans) = n * n /\ \A i, j \in 1..n : (i # 1 \/ j # 1) =>
    LET bad == {b \in {0, 1} : pts[j] = PMul(IF b = 0 THEN e0 ELSE e1, pts[i], C)}
    IN bad # {0, 1} => ans[(i - 1) * n + j] \notin bad
DistMessy(e) ==
  /\ e.pts = [k \in 1..C.n |-> G(k - 1)]
  /\ \A i \in DOMAIN e.outcomes : LET cr == e.outcomes[i][1][1] IN
       ~IsInf(cr[1]) /\ ~IsInf(cr[2]) => MessyAnswers(cr, e.outcomes[i][1][2], e.pts)
  /\ Unch

\* A long run: no coordinate comes twice.
Many(e) ==
  /\ TRUE = \A S \in {{e.xs[i] : i \in DOMAIN e.xs}} : "0" \notin S /\ Cardinality(S) = Len(e.xs) /\ S \cap seen = {}
  /\ seen' = seen \cup {e.xs[i] : i \in DOMAIN e.xs} /\ UNCHANGED <<dvars, svars, fresh, hist>>
Spread(e) == WellSpread(hist[e.what]) /\ hist' = [hist EXCEPT ![e.what] = EmptyHist] /\ UNCHANGED <<dvars, svars, fresh, seen>>

TInit == /\ l = 1 /\ inst = <<>> /\ keys = <<>> /\ cts = <<>> /\ recv = <<>> /\ sndr = <<>> /\ prxy = <<>> /\ sels = <<>> /\ xfers = <<>>
         /\ fresh = FALSE /\ seen = {} /\ hist = [w \in Kinds |-> EmptyHist]
Start(e) == /\ inst' = <<>> /\ keys' = <<>> /\ cts' = <<>> /\ recv' = <<>> /\ sndr' = <<>> /\ prxy' = <<>> /\ sels' = <<>> /\ xfers' = <<>>
            /\ fresh' = e.fresh /\ UNCHANGED <<seen, hist>>
TNext ==
  /\ More
  /\ LET e == Ev IN
     CASE e.op = "start" -> Start(e)
       [] e.op = "new" -> New(e)
       [] e.op = "anycrs" -> AnyCrs(e)
       [] e.op = "import" -> Import(e)
       [] e.op = "importraw" -> ImportRaw(e)
       [] e.op \in {"dup", "assign"} -> Dup(e)
       [] e.op = "keygen" -> KeyGen(e)
       [] e.op = "trap" -> Trap(e)
       [] e.op = "rawkey" -> RawKey(e)
       [] e.op = "enc" -> Enc(e)
       [] e.op = "dec" -> Dec(e)
       [] e.op = "decint" -> DecInt(e)
       [] e.op = "eval" -> Eval(e)
       [] e.op = "messy" -> Messy(e)
       [] e.op = "coding" -> Coding(e)
       [] e.op = "recv" -> NewRecv(e)
       [] e.op = "sndr" -> NewSndr(e)
       [] e.op = "prxy" -> NewPrxy(e)
       [] e.op = "select" -> Select(e)
       [] e.op = "send" -> Send(e)
       [] e.op = "open" -> Open(e)
       [] e.op = "openint" -> OpenInt(e)
       [] e.op = "agg" -> Agg(e)
       [] e.op = "many" -> Many(e)
       [] e.op = "distenc" -> DistEnc(e)
       [] e.op = "distkey" -> DistKey(e)
       [] e.op = "distselect" -> DistSelect(e)
       [] e.op = "distsend" -> DistSend(e)
       [] e.op = "distcrs" -> DistCrs(e)
       [] e.op = "disttrap" -> DistTrap(e)
       [] e.op = "distmessy" -> DistMessy(e)
       [] e.op = "spread" -> Spread(e)
       [] OTHER -> FALSE
  /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
