------------------------------- MODULE Tr_C21 -------------------------------
(* Recorded modulus raisings, followed by lowering. *)
EXTENDS HE, TraceLib
VARIABLES ct, a, b, up
cvars == <<ct, a, b, up>>
TraceInit == l = 1 /\ ct = <<>> /\ a = 0 /\ b = 0 /\ up = <<>>
Raise == /\ IsEvent("raise") /\ ct' = Ev.ct /\ a' = Ev.a /\ b' = Ev.b /\ up' = Ev.up /\ Ternary(Ev.s) /\ Ev.same
         /\ CtCanon(b', Len(Ev.s), up') /\ RaiseRel(a', b', Ev.s, Phase(a', ct', Ev.s), Phase(b', up', Ev.s))
Lower == IsEvent("lower") /\ Ev.ct = ct /\ Ev.same /\ UNCHANGED cvars
TraceSpec == TraceInit /\ [][Raise \/ Lower]_<<cvars, l>>
=============================================================================
