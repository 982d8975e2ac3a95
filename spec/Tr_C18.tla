------------------------------- MODULE Tr_C18 -------------------------------
(* Recorded CoeffToSlot and SlotToCoeff, judged by the slots of the phases. *)
EXTENDS Circuit, TraceLib
TraceInit == l = 1
\* slot j of the outputs: coefficient rev(j) and N/2 + rev(j), times the scale
Cts == /\ Ev.e = "cts" /\ Ev.same /\ (Ev.g - 1) % Ev.G = 0
       /\ CtCanon(Ev.k, 2 ^ Ev.g, Ev.out0) /\ CtCanon(Ev.k, 2 ^ Ev.g, Ev.out1)
       /\ \E m \in {PSigned(Ev.k, Phase(Ev.k, Ev.in, Ev.s))} :
          \E err \in {CtsErr(Ev, SizeOf(ToSlots(Ev.g, m)))} :
          \A h \in {0, 1} :
            \E z \in {ToSlots(Ev.g, PSigned(Ev.k, Phase(Ev.k, IF h = 0 THEN Ev.out0 ELSE Ev.out1, Ev.s)))} :
               /\ Within(z[1], VScale(CtsSlots(Ev.g, m, h), Scale(Ev) ** One), err ** One)
               /\ VMaxAbs(z[2]) \preceq (err ** One)
\* complex slots give a second polynomial, times i
Stc == /\ Ev.e = "stc" /\ Ev.same /\ (Ev.g - 1) % Ev.G = 0 /\ CtCanon(Ev.k, 2 ^ Ev.g, Ev.out)
       /\ \E a \in {ToSlots(Ev.g, PSigned(Ev.k, Phase(Ev.k, Ev.in0, Ev.s)))} : \E b \in {ToSlots(Ev.g, PSigned(Ev.k, Phase(Ev.k, Ev.in1, Ev.s)))} :
          \E u \in {ToSlots(Ev.g, Gather(Ev.g, a[1], b[1]))} : \E v \in {ToSlots(Ev.g, Gather(Ev.g, a[2], b[2]))} :      \* times 2^(2F)
          \E z \in {ToSlots(Ev.g, PSigned(Ev.k, Phase(Ev.k, Ev.out, Ev.s)))} :
          \E tol \in {(Chain(Ev, Ev.G, Stages(Ev), SizeOf(a), BI(0)) ++ Chain(Ev, Ev.G, Stages(Ev), SizeOf(b), BI(0))) ** BPow2(2 * F)} :
             /\ Within(VScale(z[1], One), VScale(VSub(u[1], v[2]), Scale(Ev)), tol)
             /\ Within(VScale(z[2], One), VScale(VAdd(u[2], v[1]), Scale(Ev)), tol)
\* there and back: the coefficients times both scales
Round == /\ Ev.e = "round" /\ (Ev.g - 1) % Ev.G = 0
         /\ \E m \in {PSigned(Ev.k, Phase(Ev.k, Ev.in, Ev.s))} : \E r \in {PSigned(Ev.k, Phase(Ev.k, Ev.out, Ev.s))} :
            \E e1 \in {CtsErr(Ev, SizeOf(ToSlots(Ev.g, m)))} : \E z \in {(VMaxAbs(m) ** Scale(Ev)) ++ (BI(2) ** e1)} :
              Within(r, VScale(m, Scale(Ev) ** Scale(Ev)), BI(2) ** StcErr(Ev, z, e1))
Step == l <= Len(Trace) /\ (Cts \/ Stc \/ Round) /\ l' = l + 1
TraceSpec == TraceInit /\ [][Step]_l
=============================================================================
