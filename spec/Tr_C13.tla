------------------------------- MODULE Tr_C13 -------------------------------
(* Recorded programs of ciphertext products over four registers: the state is the key and the phases. *)
EXTENDS HE, TraceLib
VARIABLES n, k, s, ph
cvars == <<n, k, s, ph>>
TraceInit == l = 1 /\ n = 0 /\ k = 0 /\ s = <<>> /\ ph = <<>>
Begin == /\ IsEvent("begin") /\ n' = Ev.n /\ k' = Ev.k /\ s' = Ev.s /\ Ternary(s') /\ SwkRel(k', [i \in 1..n' |-> BToInt(SquareKey(s')[i])], s', Ev.evk)
         /\ ph' = [r \in 0..3 |-> Phase(k', Ev.regs[r + 1], s')]
Mult == /\ IsEvent("mul") /\ CtCanon(k, n, Ev.ct) /\ Ev.d \notin {Ev.a, Ev.b} /\ Ev.oth = <<>>
        /\ LET p == Phase(k, Ev.ct, s) IN MulRel(k, n, s, ph[Ev.a], ph[Ev.b], p) /\ ph' = [ph EXCEPT ![Ev.d] = p]
        /\ UNCHANGED <<n, k, s>>
TraceSpec == TraceInit /\ [][Begin \/ Mult]_<<cvars, l>>
=============================================================================
