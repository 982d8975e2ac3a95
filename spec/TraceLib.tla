------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Trace validation: a trace is the list of events one run of the real     *)
(* code wrote (ndjson, one event per line, field "e" its name).  A trace   *)
(* spec has one action per event; it accepts when some behaviour consumes  *)
(* every line.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

VARIABLE l          \* index of the next line

Trace == ndJsonDeserialize(IOEnv.TRACE)

IsEvent(name) == l <= Len(Trace) /\ Trace[l].e = name /\ l' = l + 1
Ev == Trace[l]

\* number of consumed lines = diameter - 1 (every step consumes one line)
Accepted ==
  LET n == TLCGet("stats").diameter - 1
  IN  IF n = Len(Trace) THEN TRUE
      ELSE /\ PrintT(<<"REJECTED-AT", n + 1, "OF", Len(Trace), "EVENT", Trace[n + 1].e>>)
           /\ FALSE
=============================================================================
