------------------------------- MODULE Tr_C03 -------------------------------
(* Recorded sign tests, conversions to double and resizes against ZQ. *)
EXTENDS ZQ, TraceLib
TraceInit == l = 1
IsNeg  == IsEvent("isneg")  /\ Ev.r = ZIsNeg(Ev.k, Ev.x) /\ Ev.same
\* Ev.r is the double as an integer (every double of magnitude >= 2^52 is one)
Dbl    == /\ IsEvent("dbl") /\ Ev.same
          /\ LET v == ZSigned(Ev.k, Ev.x)
             IN (BAbs(Ev.r -- v) ** BPow2(51)) \preceq BAbs(v)
Resize == IsEvent("resize") /\ Ev.r = ZResize(Ev.f, Ev.t, Ev.x) /\ Ev.same
ResizeP== /\ IsEvent("resizep") /\ Ev.same /\ Len(Ev.r) = Len(Ev.x)
          /\ \A i \in 1..Len(Ev.x) : Ev.r[i] = ZResize(Ev.f, Ev.t, Ev.x[i])
TraceSpec == TraceInit /\ [][IsNeg \/ Dbl \/ Resize \/ ResizeP]_l
=============================================================================
