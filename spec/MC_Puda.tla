------------------------------- MODULE MC_Puda -------------------------------
(* Every setup of two (three) users in a small group, every round: encryption, tagging, aggregation, verification.      *)
EXTENDS PudaM, Curves
VARIABLES st, s, h, t, ms, cts, tags, out
vars == <<st, s, h, t, ms, cts, tags, out>>
C == ThisCurve
N == IF "USERS" \in DOMAIN IOEnv THEN 3 ELSE 2
U == 1..N
Z == 0..(C.n - 1)
Top == C.n - 1                    \* plays the part of 65535
H(x) == PMul(x, h, C)

Init == /\ st = "setup" /\ t = 0 /\ ms = <<>> /\ cts = <<>> /\ tags = <<>> /\ out = <<>>
        /\ h \in Points(C) \ {Inf}
        /\ \E eks \in [U -> Z], tks \in [U -> {0, 1}], a \in Z : s = SetupOf(eks, tks, a, C)
Round == /\ st = "setup" /\ st' = "round" /\ t' \in Z
         /\ ms' = <<>> /\ cts' = <<>> /\ tags' = <<>> /\ out' = <<>> /\ UNCHANGED <<s, h>>
EncTag == /\ st = "round" /\ Len(ms) < N
          /\ \E m \in 0..Top : LET u == Len(ms) + 1 IN
               /\ NSum(ms, 1000) + m <= Top
               /\ ms' = Append(ms, m)
               /\ cts' = Append(cts, EncP(H(t), s.ek[u], m, C))
               /\ tags' = Append(tags, TagP(H(t), s.tk[u], s.a, m, C))
          /\ UNCHANGED <<st, s, h, t, out>>
Agg == /\ st = "round" /\ Len(ms) = N /\ st' = "agg"
       /\ out' = [pt |-> AggPoint(H(t), s.ak, cts, C), tag |-> PSum(tags, C)]
       /\ UNCHANGED <<s, h, t, ms, cts, tags>>
Next == Round \/ EncTag \/ Agg
Spec == Init /\ [][Next]_vars

Sum == NSum(ms, 1000)
\* P01: exactly one value unmasks the aggregate, and it is the sum.  P02: the tag is the certified one.
Correct == st = "agg" => /\ {m \in 0..Top : Unmasks(out.pt, m, C)} = {Sum}
                         /\ out.tag = CertTag(H(t), NSum(s.tk, C.n), s.a, Sum, C)
\* ... for no other sum, unless a is 0.
Binding == st = "agg" /\ s.a # 0 => \A m \in 0..Top : out.tag = CertTag(H(t), NSum(s.tk, C.n), s.a, m, C) => m = Sum

\* P03: the ciphertexts of any incomplete set of users are uniform whatever the values; so is the joint view of the
\* aggregator (who knows ak) of an incomplete set.
View(sub, vals, P) ==
  TLCEval(Weights(TLCEval([eks \in [U -> Z] |-> [u \in sub |-> EncP(P, eks[u], vals[u], C)]])))
Incomplete == SUBSET U \ {U, {}}
ASSUME \A P \in Points(C) \ {Inf}, sub \in Incomplete :
         \E d \in {View(sub, [u \in sub |-> 0], P)} :
           \A vals \in [sub -> {0, 1, Top}] : View(sub, vals, P) = d
AggView(sub, vals, P) ==
  TLCEval(Weights(TLCEval([eks \in [U -> Z] |-> <<NMod(0 - NSum(eks, C.n), C.n), [u \in sub |-> EncP(P, eks[u], vals[u], C)]>>])))
ASSUME \A P \in Points(C) \ {Inf}, sub \in Incomplete :
         \E d \in {AggView(sub, [u \in sub |-> 0], P)} :
           \A vals \in [sub -> {0, 1, Top}] : AggView(sub, vals, P) = d
=============================================================================
