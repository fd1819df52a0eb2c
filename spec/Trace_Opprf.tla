----------------------------- MODULE Trace_Opprf -----------------------------
(***************************************************************************)
(* Recorded threshold evaluations (R01-R04) against OpprfM.                *)
(*                                                                         *)
(* A glass session shows both branches of everything a server sends, so    *)
(* that one session decides what every 16-bit input would obtain: the keys *)
(* of every reachable relation at every level, what opens under them and   *)
(* what does not, the blinded multiples of the secret and the masks.       *)
(* Sessions with real clients are judged by their results.                 *)
(***************************************************************************)
EXTENDS OpprfM, Sym, Dist, Curves, TraceBase
LL == 16
C == Secp256r1
G(k) == PMul(k, Gen(C), C)
Iv0 == Zeros(16)
TwoTo128 == NShl("1", 128)

VARIABLES srv,        \* server -> [theta, ga, k, keys, level, psum, cand, draws, pos]
          cli,        \* client -> [x, s, level]
          seen,       \* keys, masks, session keys and results that must not come again
          hist,       \* spread of keys and blinding scalars
          pos         \* statistics of positions
svars == <<srv, cli, seen, hist>>
vars == <<svars, pos, l>>

NoPos == [r \in Rels |-> 0]
Zero3 == [p \in 1..3 |-> 0]
Perms == {f \in [1..3 -> 1..3] : \A a, b \in 1..3 : a # b => f[a] # f[b]}
PermName(lt, eq, gt) == <<lt, eq, gt>>
\* How two positions of different rounds or sessions are related: their difference and their sum, each modulo 3.
Zero6 == <<0, 0, 0, 0, 0, 0>>
RelPairs == {"lt", "eq", "gt"} \X {"lt", "eq", "gt"}
Couples == {ab \in (0..15) \X (0..15) : ab[1] > ab[2]} \X RelPairs
Tally(t, f, g, rq) == IF rq[1] \in DOMAIN f /\ rq[2] \in DOMAIN g
                      THEN TLCEval([t EXCEPT ![((f[rq[1]] - g[rq[2]] + 3) % 3) + 1] = @ + 1, ![((f[rq[1]] + g[rq[2]]) % 3) + 4] = @ + 1])
                      ELSE t
RECURSIVE TallyAll(_, _, _, _, _)
TallyAll(t, fs, gs, rq, j) == IF j > 15 THEN t ELSE TallyAll(Tally(t, fs[j], gs[j], rq), fs, gs, rq, j + 1)
EmptyPos == [at |-> [r \in Rels |-> Zero3],                       \* position of each relation's ciphertext
             by |-> [j \in 0..15 |-> Zero3],                       \* of "eq", by round (0: the masks)
             perm |-> [f \in {<<a, b, 6 - a - b>> : a \in 1..3, b \in 1..3} |-> 0],
             same |-> [n |-> 0, y |-> 0],                          \* same position as in the previous round
             again |-> [n |-> 0, y |-> 0],                         \* ... as in the same round of the previous session
             last |-> [j \in 0..15 |-> 0],
             cur |-> [j \in 0..15 |-> <<>>], old |-> [s \in {} |-> <<>>],   \* positions in this session, in the last one of each server and (0) of any
             pair |-> [k \in Couples |-> Zero6], again2 |-> [k \in {"any", "same"} \X RelPairs |-> Zero6],
             seq |-> <<>>, seqs |-> {}]
TInit == l = 1 /\ srv = <<>> /\ cli = <<>> /\ seen = {} /\ hist = [w \in {"key", "ok"} |-> EmptyHist] /\ pos = EmptyPos

Set(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Fresh(vs) == /\ Cardinality({vs[i] : i \in DOMAIN vs}) = Len(vs) /\ {vs[i] : i \in DOMAIN vs} \cap seen = {}
             /\ seen' = seen \cup {vs[i] : i \in DOMAIN vs}
Wide(d) == NLe(C.n, NMul(2, d[1]))           \* drawn from (about) the whole range of scalars

Server(e) == srv' = Set(srv, e.s, [theta |-> e.theta, ga |-> Inf, k |-> Inf, keys |-> <<>>, level |-> 0, psum |-> Inf, cand |-> {}, tab |-> <<>>, draws |-> e.draws])
             /\ UNCHANGED <<cli, seen, hist, pos>>
Secret(e) == srv' = [srv EXCEPT ![e.s].ga = e.ga] /\ UNCHANGED <<cli, seen, hist, pos>>
\* What was drawn when the server was made or cleaned may be used as well.
Prepare(e) ==
  \E pool \in {TLCEval(srv[e.s].draws \o e.draws)} :
  /\ TRUE = (\E i \in DOMAIN pool : Wide(pool[i]) /\ e.k = G(pool[i][2]))
  /\ Fresh(<<e.k[1]>>)
  /\ srv' = [srv EXCEPT ![e.s].k = e.k, ![e.s].level = LL, ![e.s].psum = Inf, ![e.s].draws = pool,
                        ![e.s].keys = <<>>, ![e.s].cand = {}, ![e.s].tab = <<>>]
  /\ UNCHANGED <<cli, hist, pos>>
SClean(e) == srv' = [srv EXCEPT ![e.s].level = 0, ![e.s].draws = e.draws] /\ UNCHANGED <<cli, seen, hist, pos>>

(* ------------------------- what a server sends ------------------------- *)
\* A symmetric ciphertext opens under a key (0: it does not); its first byte marks its length.
Opened(key, c) == OpenCrc(key, Iv0, Tail(NBytes(c)))
\* Positions that open under the key of a known relation, and the contents.
OpensAt(keys, syms) == TLCEval([r \in DOMAIN keys |-> TLCEval([p \in DOMAIN syms |-> Opened(keys[r], syms[p])])])
OneEach(o) == TRUE =      \* (one value: not a choice between ways to hold)
             (/\ \A r \in DOMAIN o : Cardinality({p \in DOMAIN o[r] : o[r][p] # "0"}) = 1
              /\ \A r, q \in DOMAIN o : r # q => \A p \in DOMAIN o[r] : o[r][p] = "0" \/ o[q][p] = "0")
At(o, r) == CHOOSE p \in DOMAIN o[r] : o[r][p] # "0"

\* Blinding: P0 = (r ok_j) G for one drawn r and a new drawn ok_j each round.
\* Products of two wide draws, by the pair of their indices.
Products(S) ==
  LET D == TLCEval({i \in DOMAIN S.draws : Wide(S.draws[i])})
  IN TLCEval([q \in {ab \in D \X D : ab[1] < ab[2]} |-> TLCEval(G(NMod(NMul(S.draws[q[1]][2], S.draws[q[2]][2]), C.n)))])
\* <<index of r, indices used, index of the latest>>
Cands(S, tab, P0) ==
  LET hit == TLCEval({q \in DOMAIN tab : tab[q] = P0})
  IN IF S.level = LL THEN {<<q[1], {q[2]}, q[2]>> : q \in hit} \cup {<<q[2], {q[1]}, q[1]>> : q \in hit}
     ELSE LET next(r, u) == {b \in {q[1] : q \in hit} \cup {q[2] : q \in hit} : b # r /\ b \notin u /\ (<<b, r>> \in hit \/ <<r, b>> \in hit)}
          IN UNION {{<<q[1], q[2] \cup {b}, b>> : b \in next(q[1], q[2])} : q \in S.cand}
HCount(h, what, v, n) == [h EXCEPT ![what] = Count(@, v, n)]
RECURSIVE CountAll(_, _, _, _)
CountAll(h, what, vs, n) == IF vs = <<>> THEN h ELSE CountAll(HCount(h, what, Head(vs), n), what, Tail(vs), n)

KeySeq(ks) == LET RECURSIVE F(_, _)
                  F(rs, acc) == IF rs = <<>> THEN acc ELSE F(Tail(rs), IF Head(rs) \in DOMAIN ks THEN Append(acc, ks[Head(rs)]) ELSE acc)
              IN F(<<"lt", "eq", "gt">>, <<>>)

\* Statistics: o opened under the keys of the known relations in round j, r0 the positions.
Note(o, j, s) ==
  \E p \in {TLCEval([r \in DOMAIN o |-> At(o, r)])} :
  \E cur \in {TLCEval([pos.cur EXCEPT ![j] = p])} :
  LET
      prev == IF j = 0 THEN pos.last[1] ELSE IF j = 15 THEN 0 ELSE pos.last[j + 1]
      same == IF prev = 0 THEN pos.same ELSE [n |-> pos.same.n + 1, y |-> pos.same.y + (IF prev = p["eq"] THEN 1 ELSE 0)]
      ag == IF pos.last[j] = 0 THEN pos.again ELSE [n |-> pos.again.n + 1, y |-> pos.again.y + (IF pos.last[j] = p["eq"] THEN 1 ELSE 0)]
  IN pos' = [pos EXCEPT !.at = TLCEval([r \in Rels |-> TLCEval([q \in 1..3 |-> @[r][q] + (IF r \in DOMAIN p /\ p[r] = q THEN 1 ELSE 0)])]),
                        !.by[j][p["eq"]] = @ + 1,
                        !.perm = IF Cardinality(DOMAIN p) = 3 THEN [@ EXCEPT ![<<p["lt"], p["eq"], p["gt"]>>] = @ + 1] ELSE @,
                        !.same = same, !.again = ag, !.last[j] = p["eq"], !.seq = Append(@, p["eq"]),
                        !.cur = IF j > 0 THEN cur ELSE EmptyPos.cur,
                        !.old = IF j > 0 THEN @ ELSE Set(Set(@, 0, cur), s, cur),
                        !.pair = IF j > 0 THEN @ ELSE TLCEval([k \in Couples |-> Tally(@[k], cur[k[1][1]], cur[k[1][2]], k[2])]),
                        !.again2 = IF j > 0 THEN @ ELSE TLCEval([k \in DOMAIN @ |->
                            LET w == IF k[1] = "any" THEN 0 ELSE s IN IF w \in DOMAIN pos.old THEN TallyAll(@[k], cur, pos.old[w], k[2], 0) ELSE @[k]])]

GlassRound(e) ==
  LET S == srv[e.s]  i == e.j - 1  t == BitOf(S.theta, i)
      P0 == e.prf[1]  P1 == e.prf[2]
      put(nk0, tab, cand) == \E nk \in {TLCEval(nk0)} :
                 /\ \A r \in DOMAIN nk : ~NIsZero(nk[r]) /\ NLt(nk[r], TwoTo128)
                 /\ DOMAIN nk = Reachable(S.theta, LL, i)
                 /\ Fresh(Append(KeySeq(nk), P0[1]))
                 /\ srv' = [srv EXCEPT ![e.s].keys = nk, ![e.s].level = @ - 1, ![e.s].psum = PAdd(@, P0, C), ![e.s].cand = cand, ![e.s].tab = tab]
                 /\ hist' = CountAll(HCount(hist, "ok", S.draws[(CHOOSE q \in cand : TRUE)[3]][2], C.n), "key", KeySeq(nk), TwoTo128)
  IN
  /\ S.level = e.j
  /\ PSub(P1, P0, C) = PMul(NShl("1", i), S.ga, C)
  /\ \E tab \in {IF S.level = LL THEN Products(S) ELSE S.tab} :
     \E cand \in {TLCEval(Cands(S, tab, P0))} :
     /\ cand # {}
     /\ IF e.j = LL
        THEN put([r \in {StepRel("eq", 0, t), StepRel("eq", 1, t)} |-> IF r = StepRel("eq", 0, t) THEN e.syms[1][1] ELSE e.syms[2][1]], tab, cand) /\ UNCHANGED pos
        ELSE \E o0 \in {OpensAt(S.keys, e.syms[1])} : \E o1 \in {OpensAt(S.keys, e.syms[2])} :
             /\ OneEach(o0) /\ OneEach(o1)
             /\ \E got \in {TLCEval({<<StepRel(r, 0, t), o0[r][At(o0, r)]>> : r \in DOMAIN S.keys} \cup {<<StepRel(r, 1, t), o1[r][At(o1, r)]>> : r \in DOMAIN S.keys})} :
                \E rels \in {TLCEval({g[1] : g \in got})} :
                /\ Cardinality(got) = Cardinality(rels)          \* one key per relation, whatever the way to it
                /\ \E ks \in {TLCEval([r \in rels |-> (CHOOSE g \in got : g[1] = r)[2]])} : put(ks, tab, cand)
             /\ Note(o0, e.j, e.s)
  /\ UNCHANGED cli
GlassMasks(e) ==
  LET S == srv[e.s]  mask == PSub(S.k, S.psum, C) IN
  /\ S.level = 0 /\ Len(e.syms) = 3
  /\ \E o \in {OpensAt(S.keys, e.syms)} :
     LET value(r) == Decode(o[r][At(o, r)], C) IN
     /\ OneEach(o)
     /\ \A r \in DOMAIN o \cap {"lt", "eq"} : value(r) = mask
     /\ IF "gt" \in DOMAIN o
        THEN \E g \in {value("gt")} :
             /\ TRUE = (\E ds \in {S.draws, e.draws} : \E d \in DOMAIN ds : Wide(ds[d]) /\ g = G(ds[d][2]))
             /\ g # mask /\ Fresh(<<mask[1], g[1]>>)
        ELSE Fresh(<<mask[1]>>)
     /\ Note(o, 0, e.s)
  /\ UNCHANGED <<srv, cli, hist>>

(* ---------------------------- real clients ----------------------------- *)
Client(e) == cli' = Set(cli, e.c, [x |-> 0, s |-> 0, level |-> LL]) /\ UNCHANGED <<srv, seen, hist, pos>>
Msg(e) == cli' = [cli EXCEPT ![e.c] = [x |-> e.x, s |-> 0, level |-> LL]] /\ UNCHANGED <<srv, seen, hist, pos>>
CClean(e) == UNCHANGED <<svars, pos>>
Round(e) ==
  LET K == cli[e.c]  S == srv[e.s] IN
  /\ e.j = K.level /\ (K.s = 0 \/ K.s = e.s) /\ S.level > 0
  /\ e.err = ""
  /\ cli' = [cli EXCEPT ![e.c].s = e.s, ![e.c].level = @ - 1] /\ UNCHANGED <<srv, seen, hist, pos>>
\* A message that got lost or damaged: nothing is said about this session any more, nor about what the client reports.
Broken(e) == cli' = [cli EXCEPT ![e.c].level = LL + 1] /\ UNCHANGED <<srv, seen, hist, pos>>
Unmask(e) ==
  LET K == cli[e.c]  S == srv[e.s]  value == PAdd(S.k, PMul(NStr(K.x), S.ga, C), C) IN
  /\ K.level = 0 /\ K.s = e.s
  /\ e.err = "" /\ e.k = S.k
  /\ IF K.x <= S.theta THEN e.result = value /\ UNCHANGED seen
     ELSE e.result # value /\ OnCurve(e.result, C) /\ Fresh(<<e.result[1]>>)
  /\ UNCHANGED <<srv, cli, hist, pos>>

(* ------------------------------ statistics ------------------------------ *)
Tot(h) == h[1] + h[2] + h[3]
\* Around a third each (beyond six standard deviations with 300 values).
Even(h) == Tot(h) >= 300 /\ \A p \in 1..3 : 6 * h[p] > Tot(h) /\ 2 * h[p] < Tot(h)
Third(c) == c.n >= 300 /\ 6 * c.y > c.n /\ 2 * c.y < c.n
PermTotal == LET RECURSIVE S(_) S(D) == IF D = {} THEN 0 ELSE LET f == CHOOSE f \in D : TRUE IN pos.perm[f] + S(D \ {f}) IN S(DOMAIN pos.perm)
\* Any two rounds of a session, and the same round of two sessions, are unrelated: no difference or sum that holds nearly always,
\* and over all rounds of the same distance each a third of the time.
Half(t, k) == <<t[k], t[k + 1], t[k + 2]>>
NotFixed(h) == Tot(h) >= 40 => \A p \in 1..3 : 5 * h[p] < 4 * Tot(h)
Fair(h) == Tot(h) >= 300 => \A p \in 1..3 : 6 * h[p] > Tot(h) /\ 2 * h[p] < Tot(h)
RECURSIVE Diagonal(_, _, _)
Diagonal(d, rq, a) == IF a > 15 THEN Zero6 ELSE LET t == Diagonal(d, rq, a + 1) IN [i \in 1..6 |-> t[i] + pos.pair[<<<<a, a - d>>, rq>>][i]]
Unrelated ==
  /\ TRUE = \A k \in Couples : NotFixed(Half(pos.pair[k], 1)) /\ NotFixed(Half(pos.pair[k], 4))
  /\ TRUE = \A d \in 1..15, rq \in RelPairs : \A t \in {Diagonal(d, rq, d)} : Fair(Half(t, 1)) /\ Fair(Half(t, 4))
  /\ TRUE = \A k \in DOMAIN pos.again2 : Fair(Half(pos.again2[k], 1)) /\ Fair(Half(pos.again2[k], 4))
OrderHides ==
  /\ Unrelated
  /\ \A r \in Rels : Even(pos.at[r])
  /\ \A j \in 0..15 : Tot(pos.by[j]) >= 40 /\ \A p \in 1..3 : pos.by[j][p] > 0 /\ 5 * pos.by[j][p] < 4 * Tot(pos.by[j])
  /\ PermTotal >= 300 /\ \A f \in DOMAIN pos.perm : (Cardinality({f[1], f[2], f[3]}) = 3 /\ \A q \in 1..3 : f[q] \in 1..3) => 18 * pos.perm[f] > PermTotal
  /\ Third(pos.same) /\ Third(pos.again)
Spread(e) ==
  /\ CASE e.what = "keys" -> WellSpread(hist["key"])
       [] e.what = "ok" -> WellSpread(hist["ok"])
       [] e.what = "order" -> OrderHides
       [] e.what = "process" ->      \* the positions since the last such mark were not seen before
            Len(pos.seq) >= 30 /\ pos.seq \notin pos.seqs
  /\ pos' = [pos EXCEPT !.seqs = @ \cup {pos.seq}, !.seq = <<>>]
  /\ UNCHANGED svars

TNext ==
  /\ More
  /\ LET e == Ev IN
     CASE e.op = "start" -> srv' = <<>> /\ cli' = <<>> /\ UNCHANGED <<seen, hist, pos>>
       [] e.op = "crs" -> UNCHANGED <<svars, pos>>
       [] e.op = "server" -> Server(e)
       [] e.op = "client" -> Client(e)
       [] e.op = "secret" -> Secret(e)
       [] e.op = "prepare" -> Prepare(e)
       [] e.op = "glassround" -> GlassRound(e)
       [] e.op = "glassmasks" -> GlassMasks(e)
       [] e.op = "sclean" -> SClean(e)
       [] e.op = "cclean" -> CClean(e)
       [] e.op = "msg" -> Msg(e)
       [] e.op = "round" -> Round(e)
       [] e.op = "unmask" -> Unmask(e)
       [] e.op \in {"roundbad", "unmaskbad"} -> Broken(e)
       [] e.op = "spread" -> Spread(e)
       [] OTHER -> FALSE
  /\ Advance
TSpec == TInit /\ [][TNext]_vars
=============================================================================
