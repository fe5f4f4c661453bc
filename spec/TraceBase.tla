------------------------------ MODULE TraceBase ------------------------------
(* Common part of the trace specifications: the recorded trace of the         *)
(* implementation (one JSON record per line; the file is named by the         *)
(* environment variable TRACE) and the position reached in it.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE i          \* next line of the trace to explain

\* A condition the record has to satisfy; names the failed one.
Expect(cond, why) == IF cond THEN TRUE ELSE PrintT(<<"REJECT", i, why>>) /\ FALSE

HasField(r, f) == f \in DOMAIN r

TraceAccepted == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
