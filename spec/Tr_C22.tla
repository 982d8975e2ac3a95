------------------------------- MODULE Tr_C22 -------------------------------
(***************************************************************************)
(* Bootstrapping as a machine: raise the modulus, coefficients to slots,   *)
(* rescale, reduce modulo one, then either slots to coefficients           *)
(* (conventional), or subtract the reduced slots from the slots, the       *)
(* multiples of q to coefficients, and subtract those from the raised      *)
(* ciphertext (EvalRound).  Every stage fixes the modulus of its result    *)
(* and how far its phase may be from the exact one.                        *)
(***************************************************************************)
EXTENDS Circuit, TraceLib
VARIABLES st,        \* the stage reached
          cf,        \* sizes, scales and the key
          pt, m,     \* the plaintext, and the phase after raising: pt plus multiples of 2^k0
          zs, err,   \* slots before reduction, recorded; error of the slots or coefficients of this stage
          em         \* error of the reduced slots
cvars == <<st, cf, pt, m, zs, err, em>>
TraceInit == l = 1 /\ st = "none" /\ cf = [g |-> 0] /\ pt = <<>> /\ m = <<>> /\ zs = <<>> /\ err = BI(0) /\ em = BI(0)
Nn == 2 ^ cf.g
C(ld) == [g |-> cf.g, s |-> cf.s, ld |-> ld, G |-> cf.G]
K1 == cf.k - Stages(cf) * cf.ldc                     \* modulus bits after the stages
K2 == K1 - 12 * cf.ldb
K3 == K2 - Stages(cf) * cf.lds
SlotsOf(k, c) == ToSlots(cf.g, PSigned(k, Phase(k, c, cf.s)))
\* both halves: real slots within tol of v[1], v[2], no imaginary part beyond tol; v and tol are integers
Pair(k, v, tol) == /\ CtCanon(k, Nn, Ev.out0) /\ CtCanon(k, Nn, Ev.out1)
                   /\ \A h \in {1, 2} : \E z \in {SlotsOf(k, IF h = 1 THEN Ev.out0 ELSE Ev.out1)} :
                        Within(z[1], VScale(v[h], One), tol ** One) /\ VMaxAbs(z[2]) \preceq (tol ** One)
Halves(p) == << CtsSlots(cf.g, p, 0), CtsSlots(cf.g, p, 1) >>
One1(k, v, tol) == CtCanon(k, Nn, Ev.out) /\ Within(PSigned(k, Phase(k, Ev.out, cf.s)), v, tol)
Qi == VSub(m, pt)

Start == /\ IsEvent("start") /\ st' = "start" /\ Ternary(Ev.s) /\ (Ev.g - 1) % Ev.G = 0 /\ CtCanon(Ev.ldb, 2 ^ Ev.g, Ev.in)
         /\ cf' = [k |-> Ev.k, g |-> Ev.g, G |-> Ev.G, ldc |-> Ev.ldc, ldb |-> Ev.ldb, lds |-> Ev.lds, s |-> Ev.s]
         /\ pt' = PSigned(Ev.ldb, Phase(Ev.ldb, Ev.in, Ev.s))
         /\ (VMaxAbs(pt') ** BI(512)) \preceq BPow2(Ev.ldb)                     \* the driver's part
         /\ m' = <<>> /\ zs' = <<>> /\ err' = BI(0) /\ em' = BI(0)
Raise == /\ IsEvent("raise") /\ st = "start" /\ st' = "raise" /\ Ev.same
         /\ CtCanon(cf.k, Nn, Ev.out)
         /\ \E ph \in {Phase(cf.k, Ev.out, cf.s)} : RaiseRel(cf.ldb, cf.k, cf.s, VMod(pt, BPow2(cf.ldb)), ph) /\ m' = PSigned(cf.k, ph)
         /\ UNCHANGED <<cf, pt, zs, err, em>>
Cts == /\ IsEvent("cts") /\ st = "raise" /\ st' = "cts" /\ Ev.same
       /\ \E e \in {CtsErr(C(cf.ldc), SizeOf(ToSlots(cf.g, m)))} : err' = e /\ Pair(cf.k, Halves(VScale(m, Scale(C(cf.ldc)))), e)
       /\ UNCHANGED <<cf, pt, m, zs, em>>
Rs == /\ IsEvent("rs") /\ st = "cts" /\ st' = "rs" /\ Ev.same
      /\ \E e \in {(err // Scale(C(cf.ldc))) ++ BI(1) ++ BI(Nn * RoundErr(cf.s))} : err' = e /\ Pair(K1, Halves(m), e)
      /\ \E a \in {SlotsOf(K1, Ev.out0)} : \E b \in {SlotsOf(K1, Ev.out1)} : zs' = <<a[1], b[1]>>
      /\ UNCHANGED <<cf, pt, m, em>>
\* the recorded slots without the multiples of q
Rest == LET q == Halves(Qi) IN << VSub(zs[1], VScale(q[1], One)), VSub(zs[2], VScale(q[2], One)) >>
Mod == /\ IsEvent("evalmod") /\ st = "rs" /\ st' = "mod" /\ Ev.same
       /\ \E r \in {Rest} : \E d \in {VMax2(r[1], r[2]) // BPow2(cf.ldb)} :
            /\ (d ** BI(64)) \preceq One                                        \* the parameters allow it
            /\ em' = ((ErrMod(C(cf.ldb)) ++ Arcsine(d)) // BPow2(F - cf.ldb)) ++ BI(1)
       /\ Pair(K2, Halves(pt), em' ++ err)
       /\ UNCHANGED <<cf, pt, m, zs, err>>
Diff == /\ IsEvent("diff") /\ st = "conv" /\ st' = "diff" /\ Ev.same
        /\ Pair(K2, Halves(Qi), em)                                               \* whatever the error err of the slots is
        /\ UNCHANGED <<cf, pt, m, zs, err, em>>
\* real parts are off by a, imaginary ones by b
StcTol(v, a, b) == (StcErr(C(cf.lds), VMaxAbs(v) ++ a ++ b, BI(0)) ** BI(2)) ++ (Scale(C(cf.lds)) ** (a ++ b))
Stc(from, to, v, a, b) == /\ IsEvent("stc") /\ st = from /\ st' = to /\ Ev.same
          /\ \E t \in {StcTol(v, a, b)} : One1(K2, VScale(v, Scale(C(cf.lds))), t)
          /\ UNCHANGED <<cf, pt, m, zs, err, em>>
Final(v, a, b) == (StcTol(v, a, b) // Scale(C(cf.lds))) ++ BI(Weight(cf.s) + 2)
Rs2(from, to, v, a, b) == /\ IsEvent("rs2") /\ st = from /\ st' = to /\ Ev.same
           /\ \E t \in {Final(v, a, b)} : One1(K3, v, t)
           /\ UNCHANGED <<cf, pt, m, zs, err, em>>
Sub == /\ IsEvent("sub") /\ st = "qi" /\ st' = "done" /\ Ev.same
       /\ \E t \in {Final(Qi, em, em)} : One1(K3, pt, t) /\ (Ev.small => (t ** BPow2(14)) \preceq BPow2(Ev.delta))
       /\ UNCHANGED <<cf, pt, m, zs, err, em>>
Next == Start \/ Raise \/ Cts \/ Rs \/ Mod \/ Diff \/ Sub
        \/ Stc("mod", "stc", pt, em ++ err, em ++ err) \/ Rs2("stc", "conv", pt, em ++ err, em ++ err)
        \/ Stc("diff", "stc2", Qi, em, em) \/ Rs2("stc2", "qi", Qi, em, em)
TraceSpec == TraceInit /\ [][Next]_<<cvars, l>>
=============================================================================
