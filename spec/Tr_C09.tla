------------------------------- MODULE Tr_C09 -------------------------------
(***************************************************************************)
(* Runs of the real code under a controlled scheduler (and under libgomp): *)
(* every parallel region with the locations its threads touched, and the   *)
(* results.  seen maps an operation with its inputs to its result: the     *)
(* same for every team size and schedule.                                  *)
(***************************************************************************)
EXTENDS Poly, Par, TraceLib
VARIABLES seen
vars == <<l, pvars, seen>>
TraceInit == l = 1 /\ rd = {} /\ wr = {} /\ lrd = {} /\ lwr = {} /\ seen = <<>>
Region == IsEvent("region") /\ POpen /\ UNCHANGED seen
Thread == IsEvent("thread") /\ PThread(Rng(Ev.r), Rng(Ev.w), Rng(Ev.lr), Rng(Ev.lw)) /\ UNCHANGED seen
Full == IsEvent("full") /\ UNCHANGED <<pvars, seen>> /\ Ev.c = PMul(Ev.k, Ev.a, Ev.b)
Tern == IsEvent("tern") /\ UNCHANGED <<pvars, seen>> /\ Ev.c = PMul(Ev.k, [i \in 1..Len(Ev.s) |-> BI(Ev.s[i])], Ev.a)
Res  == IsEvent("result") /\ UNCHANGED pvars
        /\ IF \E i \in 1..Len(seen) : seen[i][1] = Ev.op
           THEN UNCHANGED seen /\ \E i \in 1..Len(seen) : seen[i] = <<Ev.op, Ev.d>>
           ELSE seen' = Append(seen, <<Ev.op, Ev.d>>)
TraceSpec == TraceInit /\ [][Region \/ Thread \/ Full \/ Tern \/ Res]_vars
=============================================================================
