----------------------------- MODULE Trace_Curve -----------------------------
(***************************************************************************)
(* Recorded runs of the real point and curve classes against CurveM, and   *)
(* the sampling functions: uniform over their sets, fresh at every call.   *)
(***************************************************************************)
EXTENDS CurveM, Curves, Dist, TraceBase
VARIABLES seen, hist
tvars == <<cvars, seen, hist, l>>

Plain == UNCHANGED <<seen, hist>>
Fresh(v) == v \notin seen /\ seen' = seen \cup {v}

Params(e) == /\ e.p = crv.p /\ e.a = crv.a /\ e.b = crv.b /\ e.af = crv.a /\ e.bf = crv.b /\ e.n = crv.n
             /\ e.g = Gen(crv) /\ e.gvalid /\ e.nm1g = PNeg(Gen(crv), crv)
             /\ UNCHANGED cvars /\ Plain
InScalars(v) == NLe(0, v) /\ NLt(v, crv.n)
Scalar(e) == /\ InScalars(e.v) /\ Fresh(e.v) /\ e.mod = crv.n
             /\ hist' = Count(hist, e.v, crv.n) /\ UNCHANGED cvars
RandPoint(e) == /\ e.valid /\ \E i \in DOMAIN e.draws :
                     /\ e.pt = PMul(e.draws[i], Gen(crv), crv)
                     /\ Fresh(NMod(e.draws[i], crv.n)) /\ hist' = Count(hist, NMod(e.draws[i], crv.n), crv.n)
                /\ UNCHANGED cvars
KeyPair(e) == /\ InScalars(e.sk) /\ e.pk = PMul(e.sk, Gen(crv), crv) /\ e.valid
              /\ Fresh(e.sk) /\ hist' = Count(hist, e.sk, crv.n) /\ UNCHANGED cvars
\* A long run of draws: nothing comes twice, neither within it nor from before (points are told apart by x alone).
Many(e) ==
  /\ e.valid
  /\ TRUE = (\A i \in DOMAIN e.vs : InScalars(e.vs[i]))
  /\ \A S \in {{e.vs[i] : i \in DOMAIN e.vs}} :
       /\ Cardinality(S) = Len(e.vs) /\ S \cap seen = {} /\ seen' = seen \cup S
  /\ Cardinality({e.xs[i] : i \in DOMAIN e.xs}) = Len(e.xs)
  /\ e.what /= "point" => WellSpread([n |-> crv.n, vs |-> e.vs])
  /\ UNCHANGED <<cvars, hist>>
Spread(e) == WellSpread(hist) /\ hist' = EmptyHist /\ UNCHANGED <<cvars, seen>>

\* All outcomes of the random source on a small curve.
N0 == 0..(crv.n - 1)
GMul(k) == PMul(k, Gen(crv), crv)
OutcomeOf(kind, k) == CASE kind = "s" -> k [] kind = "p" -> GMul(k) [] kind = "k" -> <<k, GMul(k)>>
\* one scalar, point or key pair, or several of them drawn one after the other
Outcome(e) == IF e.one THEN [k \in N0 |-> OutcomeOf(e.kinds[1], k)]
              ELSE [k \in [1..Len(e.kinds) -> N0] |-> [i \in 1..Len(e.kinds) |-> OutcomeOf(e.kinds[i], k[i])]]
Distribution(e) == SameDistribution(e, Outcome(e)) /\ UNCHANGED cvars /\ Plain

TInit == l = 1 /\ CInit(ThisCurve, 3) /\ seen = {} /\ hist = EmptyHist
TNext ==
  /\ More
  /\ LET e == Ev IN
     CASE e.op = "params" -> Params(e)
       [] e.op = "scalar" -> Scalar(e)
       [] e.op = "rpoint" -> RandPoint(e)
       [] e.op = "keypair" -> KeyPair(e)
       [] e.op = "spread" -> Spread(e)
       [] e.op = "many" -> Many(e)
       [] e.op = "dist" -> Distribution(e)
       [] e.op = "start" -> crv' = crv /\ reg' = [i \in 1..3 |-> Inf] /\ ret' = NoRet /\ Plain
       [] OTHER -> Step(e) /\ reg' = e.reg /\ ret' = e.ret /\ e.valid /\ Plain
  /\ Advance
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
