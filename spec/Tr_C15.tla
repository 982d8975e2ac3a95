------------------------------- MODULE Tr_C15 -------------------------------
(* Recorded encodings and decodings.  Slots are doubles in fixed point, coefficients residues modulo 2^k, D the scale. *)
EXTENDS Embed, TraceLib
TraceInit == l = 1
Slots(g) == 2 ^ (g - 1)
\* a coefficient is within 1/2, plus 2^-45 of the total magnitude, of D times the exact one
EncTol == (BI(Slots(Ev.g)) ** BPow2(2 * F - 1)) ++ (Ev.D ** ((VSumAbs(Ev.zr) ++ VSumAbs(Ev.zi)) ** BPow2(F - 45)))
Enc == /\ Ev.e = "enc" /\ Ev.same /\ Len(Ev.pt) = 2 ^ Ev.g /\ PCanon(Ev.k, Ev.pt)
       /\ \E m \in {InvEmb(Ev.g, Ev.zr, Ev.zi)} :
            Within(VScale(PSigned(Ev.k, Ev.pt), BI(Slots(Ev.g)) ** BPow2(2 * F)), VScale(m, Ev.D), EncTol)
\* long vectors, sampled at the coefficients Ev.at
EncS == /\ Ev.e = "encs" /\ Ev.same /\ Len(Ev.zr) = Slots(Ev.g) /\ PCanon(Ev.k, Ev.pt)
        /\ Within(VScale(PSigned(Ev.k, Ev.pt), BI(Slots(Ev.g)) ** BPow2(2 * F)), VScale(InvEmbAt(Ev.g, Ev.zr, Ev.zi, Ev.at), Ev.D), EncTol)
\* constant vectors v and -v: the integer nearest to D*v, symmetrically about zero
Round == /\ Ev.e = "round" /\ PCanon(Ev.k, Ev.p) /\ PCanon(Ev.k, Ev.q)
         /\ \A i \in 2..Len(Ev.p) : Ev.p[i] = BI(0) /\ Ev.q[i] = BI(0)
         /\ Ev.p[1] = ((Ev.v ** Ev.D ** BI(2)) ++ One) // (BI(2) ** One) /\ (Ev.p[1] ++ Ev.q[1]) %% BPow2(Ev.k) = BI(0)
Dec == /\ Ev.e = "dec" /\ Ev.same
       /\ \E c \in {PSigned(Ev.k, Ev.pt)} : \E tol \in {(VSumAbs(c) ** BPow2(F - 45)) ++ Ev.D} :
             Within(EmbRe(Ev.g, c), VScale(Ev.zr, Ev.D), tol) /\ Within(EmbIm(Ev.g, c), VScale(Ev.zi, Ev.D), tol)
\* decoding an encoding: every slot within N/D (one per coefficient) and 2^-44 of the total magnitude
Back == /\ Ev.e = "back" /\ LET tol == (BPow2(F) ** BI(2 ^ Ev.g)) ++ (Ev.D ** ((VSumAbs(Ev.ar) ++ VSumAbs(Ev.ai)) // BPow2(44)))
                            IN Within(VScale(Ev.ar, Ev.D), VScale(Ev.br, Ev.D), tol) /\ Within(VScale(Ev.ai, Ev.D), VScale(Ev.bi, Ev.D), tol)
Step == l <= Len(Trace) /\ (Enc \/ EncS \/ Round \/ Dec \/ Back) /\ l' = l + 1
TraceSpec == TraceInit /\ [][Step]_l
=============================================================================
