----------------------------- MODULE Trace_Field -----------------------------
(* Recorded runs of the real field classes against FieldM. *)
EXTENDS FieldM, TraceBase

\* TINYP: modulus of the classes when linked with small parameters.
Tiny == IF "TINYP" \in DOMAIN IOEnv THEN IOEnv.TINYP ELSE "7"
Primes == [tiny   |-> Tiny,
           secp_p |-> "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
           secp_n |-> "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
           bn_p   |-> "2523648240000001ba344d80000000086121000000000013a700000000000013",
           bn_n   |-> "2523648240000001ba344d8000000007ff9f800000000010a10000000000000d"]

TInit == l = 1 /\ FInit(Primes[Trace[1].field], 4)
TNext ==
  /\ More
  /\ LET e == Ev IN
     IF e.op = "start" THEN prime' = Primes[e.field] /\ reg' = [i \in 1..4 |-> NMod(0, prime')] /\ ret' = NoRet
     ELSE Step(e)
  /\ reg' = Ev.reg
  /\ ret' = Ev.ret
  /\ Ev.mod = prime'
  /\ Advance
TSpec == TInit /\ [][TNext]_<<fvars, l>>
=============================================================================
