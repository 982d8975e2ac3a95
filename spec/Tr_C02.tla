------------------------------- MODULE Tr_C02 -------------------------------
(* Recorded calls of shift_right, shift_left and RS against ZQ. *)
EXTENDS ZQ, TraceLib
TraceInit == l = 1
Shr == IsEvent("shr") /\ ZCanon(Ev.f, Ev.x) /\ Ev.r = ZScaleDown(Ev.f, Ev.t, Ev.x) /\ Ev.same
Shl == IsEvent("shl") /\ ZCanon(Ev.f, Ev.x) /\ Ev.r = ZScaleUp(Ev.f, Ev.t, Ev.x) /\ Ev.same
Rs  == /\ IsEvent("rs") /\ Ev.same
       /\ \A c \in 1..2 : \A i \in 1..Ev.n : Ev.r[c][i] = ZScaleDown(Ev.f, Ev.t, Ev.x[c][i])
TraceSpec == TraceInit /\ [][Shr \/ Shl \/ Rs]_l
=============================================================================
