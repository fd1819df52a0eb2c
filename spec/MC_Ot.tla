------------------------------- MODULE MC_Ot -------------------------------
(***************************************************************************)
(* Oblivious transfer with several senders and a summing proxy, as a       *)
(* protocol: the receiver selects and re-selects, senders answer any       *)
(* selection at any time, the proxy adds up answers in any order and the   *)
(* receiver opens what reaches it (O01, O02).  Group elements are written  *)
(* as their logarithms modulo N (the arithmetic of the points themselves   *)
(* is the subject of MC_Curve).                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, MaxSel, MaxSend
VARIABLES crs,   \* logarithms of g0, g1, h0, h1
          rsk, rb,        \* the receiver's current key and choice
          pks,            \* public keys published so far
          net             \* messages in flight or delivered: [sel, u, v, m, k]
vars == <<crs, rsk, rb, pks, net>>
Z == 0..(N - 1)
Base(b) == IF b = 0 THEN <<crs[1], crs[3]>> ELSE <<crs[2], crs[4]>>
EncB(pk, b, m, s, t) == <<(Base(b)[1] * s + Base(b)[2] * t) % N, (pk[1] * s + pk[2] * t + m) % N>>

Init == /\ \E g0 \in Z, g1 \in Z, e0 \in Z, e1 \in Z : crs = <<g0, g1, (g0 * e0) % N, (g1 * e1) % N>>
        /\ rsk = 0 /\ rb = 9 /\ pks = <<>> /\ net = {}
Select == /\ Len(pks) < MaxSel
          /\ \E b \in {0, 1}, sk \in Z :
               rb' = b /\ rsk' = sk /\ pks' = Append(pks, <<(sk * Base(b)[1]) % N, (sk * Base(b)[2]) % N>>)
          /\ UNCHANGED <<crs, net>>
\* A sender answers selection i with messages m0, m1 (one scalar of each pair fixed keeps the model small).
Send == /\ Cardinality(net) < MaxSend
        /\ \E i \in DOMAIN pks, m0 \in Z, m1 \in Z, s \in Z, t \in Z :
             LET c0 == EncB(pks[i], 0, m0, s, 1)  c1 == EncB(pks[i], 1, m1, 1, t) IN
             net' = net \cup {[sel |-> i, c |-> <<c0, c1>>, m |-> <<m0, m1>>, k |-> 1]}
        /\ UNCHANGED <<crs, rsk, rb, pks>>
\* The proxy combines two answers (or partial sums) to the same selection.
Combine == /\ \E x, y \in net : x.sel = y.sel /\ x.k + y.k <= 3 /\
                LET add(p, q) == <<(p[1] + q[1]) % N, (p[2] + q[2]) % N>> IN
                net' = net \cup {[sel |-> x.sel, c |-> <<add(x.c[1], y.c[1]), add(x.c[2], y.c[2])>>,
                                  m |-> <<(x.m[1] + y.m[1]) % N, (x.m[2] + y.m[2]) % N>>, k |-> x.k + y.k]}
           /\ Cardinality(net) < MaxSend + 1
           /\ UNCHANGED <<crs, rsk, rb, pks>>
Next == Select \/ Send \/ Combine
Spec == Init /\ [][Next]_vars
Opened(x) == (x.c[rb + 1][2] - rsk * x.c[rb + 1][1]) % N
\* Whatever answers the latest selection opens to the (sum of the) chosen message(s).
Delivers == \A x \in net : x.sel = Len(pks) /\ rb # 9 => Opened(x) = x.m[rb + 1]
=============================================================================
