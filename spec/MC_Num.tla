------------------------------- MODULE MC_Num -------------------------------
(***************************************************************************)
(* The Java evaluation of Num.tla agrees with its definitions: on all      *)
(* small integers directly, on strings of small integers through NInt, and *)
(* on wide numbers against schoolbook arithmetic written in TLA+ on digit  *)
(* sequences (base 4096, least significant first).                         *)
(***************************************************************************)
EXTENDS Num, Dist, TLC
VARIABLE done

S == -40..40
Pos == 1..20
Agree(op(_, _), ref(_, _), A, B) == \A a \in A, b \in B :
  /\ op(a, b) = ref(a, b)
  /\ NInt(op(NStr(a), b)) = ref(a, b) /\ NInt(op(a, NStr(b))) = ref(a, b) /\ NInt(op(NStr(a), NStr(b))) = ref(a, b)
AgreeB(op(_, _), ref(_, _), A, B) == \A a \in A, b \in B :
  op(a, b) = ref(a, b) /\ op(NStr(a), b) = ref(a, b) /\ op(a, NStr(b)) = ref(a, b) /\ op(NStr(a), NStr(b)) = ref(a, b)

RAdd(a, b) == a + b
RSub(a, b) == a - b
RMul(a, b) == a * b
RDiv(a, b) == a \div b
RMod(a, b) == a % b
REq(a, b) == a = b
RLt(a, b) == a < b
RLe(a, b) == a <= b
RShl(a, k) == a * NPow2(k)
RShr(a, k) == a \div NPow2(k)
RBit(a, k) == (a \div NPow2(k)) % 2
BitOp(a, k) == NBit(a, k)

Small ==
  /\ Agree(NAdd, RAdd, S, S) /\ Agree(NSub, RSub, S, S) /\ Agree(NMul, RMul, S, S)
  /\ Agree(NDiv, RDiv, S, Pos) /\ Agree(NMod, RMod, S, Pos)
  /\ AgreeB(NEq, REq, S, S) /\ AgreeB(NLt, RLt, S, S) /\ AgreeB(NLe, RLe, S, S)
  /\ \A a \in 0..300, k \in 0..10 : /\ NShl(a, k) = RShl(a, k) /\ NInt(NShl(NStr(a), k)) = RShl(a, k)
                                     /\ NShr(a, k) = RShr(a, k) /\ NInt(NShr(NStr(a), k)) = RShr(a, k)
                                     /\ NBit(a, k) = RBit(a, k) /\ NBit(NStr(a), k) = RBit(a, k)
  /\ \A a \in 0..1100 : NBitLen(a) = NBitLenDef(a) /\ NBitLen(NStr(a)) = NBitLenDef(a)
  /\ \A a \in (0..600) \cup (65000..66000) : NBytes(a) = NBytesDef(a) /\ NInt(NFromBytes(NBytes(a))) = a
  /\ \A s \in {<<0>>, <<0, 0, 7>>, <<0, 255>>, <<1, 0, 0>>} : NInt(NFromBytes(s)) = NFromBytesDef(s)
  /\ \A a \in 0..20, e \in 0..20, m \in {1, 2, 3, 7, 12, 31} :
       NPowMod(a, e, m) = NPowModDef(a, e, m) /\ NInt(NPowMod(NStr(a), e, NStr(m))) = NPowModDef(a, e, m)
  /\ \A m \in {2, 3, 5, 7, 11, 13, 31} : \A a \in 1..(m - 1) :
       LET x == CHOOSE y \in 0..(m - 1) : (a * y) % m = 1 % m
       IN NInvMod(a, m) = x /\ NInt(NInvMod(NStr(a), NStr(m))) = x /\ NInvMod(a + m, m) = x

(* --------------------- schoolbook arithmetic on digits ------------------- *)
B == 4096
RECURSIVE Carry(_, _)
Carry(s, c) == IF s = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % B>> \o Carry(<<>>, c \div B))
               ELSE <<(Head(s) + c) % B>> \o Carry(Tail(s), (Head(s) + c) \div B)
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
DAdd(s, t) == Carry([i \in 1..Max2(Len(s), Len(t)) |-> At(s, i) + At(t, i)], 0)
DMulDigit(s, d) == Carry([i \in 1..Len(s) |-> s[i] * d], 0)
RECURSIVE DMul(_, _)
DMul(s, t) == IF t = <<>> THEN <<>> ELSE DAdd(DMulDigit(s, Head(t)), <<0>> \o DMul(s, Tail(t)))
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Dig(_)                    \* digits of a numeral, by its hexadecimal shifts
Dig(a) == IF NIsZero(a) THEN <<>> ELSE <<NInt(NMod(a, NStr(B)))>> \o Dig(NShr(a, 12))
DLess(s, t) == \E k \in 1..Max2(Len(s), Len(t)) :
                 At(s, k) < At(t, k) /\ \A i \in (k + 1)..Max2(Len(s), Len(t)) : At(s, i) = At(t, i)

P == "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"
N == "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"
Q == "2523648240000001ba344d80000000086121000000000013a700000000000013"
Wide == {P, N, Q, "0", "1", "ffffffffffffffff", "10000000000000000", "123456789abcdef0fedcba9876543210",
         "8000000000000000000000000000000000000000000000000000000000000000",
         "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "abcdef"}
Big ==
  \A a, b \in Wide :
    /\ Dig(NAdd(a, b)) = Trim(DAdd(Dig(a), Dig(b)))
    /\ Dig(NMul(a, b)) = Trim(DMul(Dig(a), Dig(b)))
    /\ NLt(a, b) = DLess(Dig(a), Dig(b)) /\ NEq(a, b) = (Dig(a) = Dig(b)) /\ NLe(a, b) = ~DLess(Dig(b), Dig(a))
    /\ \A m \in {P, N, Q} :     \* a = q m + r with r < m
         LET q == NDiv(a, m)  r == NMod(a, m)
         IN Dig(a) = Trim(DAdd(DMul(Dig(q), Dig(m)), Dig(r))) /\ DLess(Dig(r), Dig(m))
    /\ \A m \in {P, N, Q} : ~NIsZero(NMod(a, m)) =>
         NMod(NMul(NInvMod(a, m), a), m) = "1" /\ NLt(NInvMod(a, m), m)
    /\ NFromBytes(NBytes(a)) = a
    /\ \A k \in {0, 1, 7, 64, 100} : NShl(a, k) = NMul(a, NShl("1", k)) /\ NShr(a, k) = NDiv(a, NShl("1", k))
    /\ NSub(NAdd(a, b), b) = a
    /\ NPowMod(a, 5, P) = NMod(NMul(a, NMul(NMul(a, a), NMul(a, a))), P)

ASSUME Small
ASSUME Big
ASSUME \A m \in 1..6 : LET f == [x \in (0..6) \X (0..4) |-> <<(x[1] * x[2]) % m, <<NStr(x[1] % 2), x[2] > 2>>>>] IN Weights(f) = WeightsRef(f)
ASSUME \A m \in {3, 7, 11, 64} : LET vs == [i \in 1..9 |-> IF i % 2 = 0 THEN (i * i * 5) % m ELSE NStr((i * 13) % m)]
       IN BitCounts(vs, 7) = BitCountsRef(vs, 7) /\ \A K \in {{}, {2}, 0..6, {1, 3, 5}} : PairDev(vs, K) = PairDevRef(vs, K)
ASSUME \A n \in 1..40, k \in 0..6 : NEq(OnesAt(n, k), Cardinality({v \in 0..(n - 1) : NBit(v, k) = 1}))
ASSUME LET f == [x \in {} |-> x] IN Weights(f) = WeightsRef(f)
Init == done = TRUE
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
