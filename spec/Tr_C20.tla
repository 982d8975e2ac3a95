------------------------------- MODULE Tr_C20 -------------------------------
(***************************************************************************)
(* Recorded EvalMod: a slot t within 1/64 of an integer becomes its signed *)
(* distance from it, with the precision of the circuit: a polynomial of    *)
(* degree 31 in t/24 (T_1, T_2, .. T_16), four doublings of the angle, and *)
(* x + x^3/6, everything divided by 2 pi.                                  *)
(***************************************************************************)
EXTENDS Circuit, TraceLib
TraceInit == l = 1
EvalMod == /\ IsEvent("evalmod") /\ Ternary(Ev.s) /\ Ev.same
           /\ CtCanon(Ev.k - 12 * Ev.ld, 2 ^ Ev.g, Ev.out)
           /\ \E ph \in {PSigned(Ev.k, Phase(Ev.k, Ev.in, Ev.s))} : \E po \in {PSigned(Ev.k - 12 * Ev.ld, Phase(Ev.k - 12 * Ev.ld, Ev.out, Ev.s))} :
              \E a \in {VDiv(EmbRe(Ev.g, ph), BPow2(Ev.ld))} : \E b \in {VDiv(EmbIm(Ev.g, ph), BPow2(Ev.ld))} :
              \E x \in {VDiv(EmbRe(Ev.g, po), BPow2(Ev.ld))} : \E y \in {VDiv(EmbIm(Ev.g, po), BPow2(Ev.ld))} :
              \E p \in {ErrMod(Ev)} :
                \A j \in 1..Len(a) :
                  /\ InReach(a[j])                           \* the driver's part
                  /\ \E d \in {a[j] -- Nearest(a[j])} :
                       /\ BAbs(x[j] -- d) \preceq (p ++ Arcsine(BAbs(d)))
                       /\ BAbs(y[j] -- b[j]) \preceq (p ++ BAbs(b[j]))
TraceSpec == TraceInit /\ [][EvalMod]_l
=============================================================================
