------------------------------- MODULE Tr_C06 -------------------------------
(***************************************************************************)
(* Recorded conversions between residues modulo 2^k and a prime basis.     *)
(* State: the basis, its product and idempotents.                          *)
(***************************************************************************)
EXTENDS RNS, TraceLib
VARIABLES q, Q, e
vars == <<l, q, Q, e>>
TraceInit == l = 1 /\ q = <<>> /\ Q = BI(1) /\ e = <<>>
Basis == /\ IsEvent("basis") /\ q' = Ev.q /\ RDistinct(q') /\ ROdd(q')
         /\ Q' = BProd(q') /\ e' = RIdem(q')
         /\ Len(q') <= 12 => RIdemOK(q', e')
Same == UNCHANGED <<q, Q, e>>
Decompose == /\ IsEvent("icrt") /\ Same /\ Ev.same
             /\ RWords(q, Ev.r) /\ Represents(q, Ev.r, ZSigned(Ev.k, Ev.x))
\* m: the modulus after the conversion still is the one constructed
Recombine == /\ IsEvent("crt") /\ Same /\ Ev.same
             /\ Ev.x = RCombine(Q, e, Ev.r) %% BPow2(Ev.k)
RoundTrip == /\ IsEvent("round") /\ Same
             /\ LET v == ZSigned(Ev.k, Ev.x)
                IN IF BAbs(v) ** BI(2) \prec Q THEN Ev.y = Ev.x
                   ELSE Ev.y = BCenter(v, Q) %% BPow2(Ev.k)
TraceSpec == TraceInit /\ [][Basis \/ Decompose \/ Recombine \/ RoundTrip]_vars
=============================================================================
