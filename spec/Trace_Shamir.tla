----------------------------- MODULE Trace_Shamir -----------------------------
(* Recorded sharings and reconstructions of the real code. *)
EXTENDS ShamirM, Curves, Dist, TraceBase
VARIABLES shr,      \* one record per sharing: [t, n, secret]
          seen,     \* every non-constant coefficient used so far
          hist      \* histograms of coefficients: by position (1, 2, .., last few pooled)
tvars == <<shr, seen, hist, l>>
Q == ThisCurve.n
Pos == 1..8
Slot(k) == IF k < 8 THEN k ELSE 8

RECURSIVE CountAll(_, _, _)
CountAll(h, co, k) == IF k > Len(co) THEN h
                      ELSE CountAll([h EXCEPT ![Slot(k - 1)] = Count(@, co[k], Q)], co, k + 1)

\* e.shares: <<position, index, value>> of the shares looked at (all of them, or a selection of at least t).
Deal(e) ==
  LET s == e.shares
  IN \E pts \in {TLCEval([j \in 1..e.t |-> <<NStr(s[j][1]), s[j][3]>>])} :
     \E co \in {TLCEval(Coefficients(pts, Q))} :
     /\ e.cnt = e.n
     /\ TRUE = \A j \in DOMAIN s : /\ NEq(s[j][2], s[j][1])                          \* share number i carries index i
                            /\ NEq(Eval(co, NStr(s[j][1]), Q), s[j][3])       \* all on one polynomial of degree < t
     /\ NEq(co[1], e.secret)
     \* fresh, pairwise different coefficients
     /\ \E new \in {{NStr(co[j]) : j \in 2..e.t}} :
          /\ Cardinality(new) = e.t - 1 /\ new \cap seen = {} /\ seen' = seen \cup new
     /\ hist' = CountAll(hist, co, 2)
     /\ shr' = Append(shr, [t |-> e.t, n |-> e.n, secret |-> e.secret])

Recon(e) ==
  /\ Cardinality({e.sel[j] : j \in DOMAIN e.sel}) = Len(e.sel)
  /\ Len(e.sel) >= shr[e.sid].t => e.val = shr[e.sid].secret
  /\ UNCHANGED <<shr, seen, hist>>

Spread(e) == WellSpread(hist[e.pos]) /\ UNCHANGED <<shr, seen, hist>>

\* exact distribution of all the shares of a sharing
Polys(e) == [1..(e.t - 1) -> 0..(Q - 1)]
DealDist(e) == /\ SameDistribution(e, [co \in Polys(e) |-> [i \in 1..e.n |-> <<i, Eval(<<e.secret>> \o [j \in 1..(e.t - 1) |-> co[j]], i, Q)>>]])
               /\ UNCHANGED <<shr, seen, hist>>

TInit == l = 1 /\ shr = <<>> /\ seen = {} /\ hist = [k \in Pos |-> EmptyHist]
TNext == /\ More
         /\ LET e == Ev IN
            CASE e.op = "share" -> Deal(e)
              [] e.op = "recon" -> Recon(e)
              [] e.op = "spread" -> Spread(e)
              [] e.op = "dist" -> DealDist(e)
              [] e.op = "start" -> shr' = <<>> /\ UNCHANGED <<seen, hist>>
              [] OTHER -> FALSE
         /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
