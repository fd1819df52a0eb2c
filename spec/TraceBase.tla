------------------------------ MODULE TraceBase ------------------------------
(* Common part of trace specifications: the recorded events and the position of the next one to be explained. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
More == l <= Len(Trace)
Ev == Trace[l]
Advance == l' = l + 1
\* One state per explained event plus the initial one.
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
