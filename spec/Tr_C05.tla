------------------------------- MODULE Tr_C05 -------------------------------
(* Recorded word operations against the integers. *)
EXTENDS ZQ, TraceLib
TraceInit == l = 1
Mod == IsEvent("mod") /\ Ev.r = (Ev.lo ++ (Ev.hi ** B2_64)) %% Ev.q
Mul == IsEvent("mul") /\ Ev.lo ++ (Ev.hi ** B2_64) = Ev.a ** Ev.b /\ Ev.lo \prec B2_64 /\ Ev.hi \prec B2_64
Add == IsEvent("add") /\ Ev.r = (Ev.a ++ Ev.b) %% Ev.q
Sub == IsEvent("sub") /\ Ev.r = (Ev.a -- Ev.b) %% Ev.q
MulM== IsEvent("mulm") /\ Ev.r = (Ev.a ** Ev.b) %% Ev.q
Pow == IsEvent("pow") /\ Ev.r = BPowMod(Ev.a, Ev.b, Ev.q)
\* q is prime and does not divide a
Inv == IsEvent("inv") /\ (Ev.r ** Ev.a) %% Ev.q = BI(1) /\ Ev.r \prec Ev.q
TraceSpec == TraceInit /\ [][Mod \/ Mul \/ Add \/ Sub \/ MulM \/ Pow \/ Inv]_l
=============================================================================
