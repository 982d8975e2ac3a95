------------------------------- MODULE Tr_C04 -------------------------------
(* Recorded conversions to and from decimal text, and printed forms. *)
EXTENDS ZQ, Decimal, TraceLib
TraceInit == l = 1
ToStr == IsEvent("to_str") /\ IsTextOf(Ev.s, Ev.x) /\ Ev.same
FrStr == /\ IsEvent("fr_str") /\ IsNumeral(Ev.s)
         /\ Ev.r = Denotes(Ev.s) /\ ZCanon(Ev.k, Ev.r)
\* a printed form: the numerals found in the output, each with its sign
\* magnitudes as printed unsigned / signed
TextOf(t, v, signed, k) ==
  LET sv == ZSigned(k, v)
  IN IF signed /\ sv \prec BI(0) THEN t.neg = 1 /\ IsTextOf(t.s, BNeg(sv))
     ELSE t.neg = 0 /\ IsTextOf(t.s, v)
Printed == /\ IsEvent("print") /\ Len(Ev.out) = Len(Ev.x) /\ Ev.junk = 0
         /\ \A i \in 1..Len(Ev.x) : TextOf(Ev.out[i], Ev.x[i], Ev.signed, Ev.k)
TraceSpec == TraceInit /\ [][ToStr \/ FrStr \/ Printed]_l
=============================================================================
