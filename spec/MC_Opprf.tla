------------------------------ MODULE MC_Opprf ------------------------------
(***************************************************************************)
(* Model of the protocol for L-bit inputs over the group Z_Q.  Keys are    *)
(* symbols <<session, level, relation>>; a transfer gives the client the   *)
(* message of the branch it asks for and nothing else; a ciphertext opens  *)
(* under its key and under no other.  Sessions follow each other on the    *)
(* same objects.                                                           *)
(***************************************************************************)
EXTENDS OpprfM, TLC, Json
CONSTANTS L, Q, Sessions
ASSUME Q \in Nat /\ L \in Nat

Top == L - 1
Zq == 0..(Q - 1)
VARIABLES theta, x, ga, rand,       \* rand: [ok: level -> Zq, r, k, m] of the session
          session, level,           \* next level to transfer, L-1 down to 0; -1: masks
          know,                     \* keys the client has
          sum, result, phase
vars == <<theta, x, ga, rand, session, level, know, sum, result, phase>>

K(i, rel) == <<session, i, rel>>
\* Message of level i on branch b: at the top a key, below it a ciphertext <<under, content>> for each relation.
TopKey(b) == K(Top, StepRel("eq", b, BitOf(theta, Top)))
Cipher(i, b, rel) == <<K(i + 1, rel), K(i, StepRel(rel, b, BitOf(theta, i)))>>
Prf(i, b) == (b * Pow2(i) * ga + rand.r * rand.ok[i]) % Q
Total == LET RECURSIVE S(_)
             S(i) == IF i < 0 THEN 0 ELSE rand.ok[i] + S(i - 1)
         IN S(Top)
Mask == (rand.k + Q * Q * L - ((rand.r * Total) % Q)) % Q
Masks == {<<K(0, "lt"), Mask>>, <<K(0, "eq"), Mask>>, <<K(0, "gt"), rand.m>>}

Fresh == rand' \in [ok: [0..Top -> Zq], r: Zq, k: Zq, m: Zq]
\* One session's random values are enough to see the equations; the keys are what is followed over sessions.
Begin ==
  /\ session < Sessions
  /\ session' = session + 1 /\ level' = Top /\ phase' = "run" /\ sum' = 0 /\ result' = 0
  /\ theta' = IF session = 0 THEN theta ELSE theta          \* a server keeps its threshold
  /\ x' \in 0..(Pow2(L) - 1)
  /\ IF session = 0 THEN ga' \in Zq /\ Fresh ELSE ga' = (ga + 1) % Q /\ UNCHANGED rand
  /\ UNCHANGED <<know, theta>>
Round ==
  /\ phase = "run" /\ level >= 0
  /\ LET b == BitOf(x, level) IN
     /\ know' = know \cup (IF level = Top THEN {TopKey(b)}
                           ELSE {c[2] : c \in {d \in {Cipher(level, b, rel) : rel \in Rels} : d[1] \in know}})
     /\ sum' = (sum + Prf(level, b)) % Q
  /\ level' = level - 1
  /\ UNCHANGED <<theta, x, ga, rand, session, result, phase>>
Unmask ==
  /\ phase = "run" /\ level = 0 - 1
  /\ \E c \in Masks : c[1] \in know /\ result' = (sum + c[2]) % Q
  /\ phase' = "done"
  /\ UNCHANGED <<theta, x, ga, rand, session, level, know, sum>>
Clean == phase = "done" /\ phase' = "idle" /\ UNCHANGED <<theta, x, ga, rand, session, level, know, sum, result>>
Init == /\ theta \in 0..(Pow2(L) - 1) /\ x = 0 /\ ga = 0 /\ rand = [ok |-> [i \in 0..Top |-> 0], r |-> 0, k |-> 0, m |-> 0]
        /\ session = 0 /\ level = Top /\ know = {} /\ sum = 0 /\ result = 0 /\ phase = "idle"
Next == (phase = "idle" /\ Begin) \/ Round \/ Unmask \/ Clean
Spec == Init /\ [][Next]_vars

Done == phase = "done"
\* R01
Correct == Done /\ x <= theta => result = (rand.k + x * ga) % Q
\* R02: the key of exactly one relation per level of the session, that of the prefixes; above the threshold the mask is the random point.
OneKey == \A i \in 0..Top : (session > 0 /\ i > level) =>
            {k \in know : k[1] = session /\ k[2] = i} = {K(i, Compare(x \div Pow2(i), theta \div Pow2(i)))}
Above == Done /\ x > theta => result = (sum + rand.m) % Q
\* No run gets stuck.
Progress == phase = "run" => ENABLED (Round \/ Unmask)
\* Every level's reachable relations are those of Reachable.
ReachOk == session = 0 => \A i \in 0..Top : {Compare(y \div Pow2(i), theta \div Pow2(i)) : y \in 0..(Pow2(L) - 1)} = Reachable(theta, L, i)

\* Hiding: over the server's random values the view of a client is distributed in the same way for every secret.
View(th, y, g, o, r, k, m) ==
  LET pr(i) == (BitOf(y, i) * Pow2(i) * g + r * o[i]) % Q
      tot == LET RECURSIVE S(_) S(i) == IF i < 0 THEN 0 ELSE o[i] + S(i - 1) IN S(Top)
  IN <<[i \in 0..Top |-> pr(i)], IF y > th THEN m ELSE (k + Q * Q * L - ((r * tot) % Q)) % Q>>
Dist(th, y, g) ==
  LET dom == {d \in [0..Top -> Zq] \X Zq \X Zq \X Zq : d[2] # 0}
      f == [d \in dom |-> View(th, y, g, d[1], d[2], d[3], d[4])]
  IN [v \in {f[d] : d \in dom} |-> Cardinality({d \in dom : f[d] = v})]
HidingLevels == L <= 2
ASSUME HidingLevels => \A th, y \in 0..(Pow2(L) - 1) : \A g \in Zq : Dist(th, y, g) = Dist(th, y, 0)
=============================================================================
