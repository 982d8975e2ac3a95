------------------------------- MODULE Tr_C07 -------------------------------
(***************************************************************************)
(* Recorded transforms.  State: length, prime, and the points found as the *)
(* transform of x.                                                         *)
(***************************************************************************)
EXTENDS NTT, TraceLib
VARIABLES n, q, p
vars == <<l, n, q, p>>
TraceInit == l = 1 /\ n = 0 /\ q = BI(2) /\ p = <<>>
Same == UNCHANGED <<n, q, p>>
Points == IsEvent("points") /\ n' = Ev.n /\ q' = Ev.q /\ p' = VMod(Ev.p, Ev.q) /\ NPoints(n', q', p')
J == IF Ev.j = <<>> THEN 1..n ELSE {Ev.j[i] : i \in 1..Len(Ev.j)}
Fwd == IsEvent("ntt") /\ Same /\ Len(Ev.r) = n /\ NForward(q, p, Ev.a, Ev.r, J)
Inv == IsEvent("intt") /\ Same /\ Len(Ev.r) = n /\ NInverse(q, p, Ev.a, Ev.r, J)
\* the transform of c * x^d, at every point
Mono == IsEvent("mono") /\ Same
        /\ \A j \in 1..n : (Ev.c ** BPowMod(p[j], BI(Ev.d), q)) %% q = Ev.r[j] %% q
Back == IsEvent("back") /\ Same /\ VMod(Ev.r, q) = VMod(Ev.a, q)
Prod == IsEvent("prod") /\ Same /\ NProduct(q, Ev.a, Ev.b, Ev.c)
\* the tables did not change
Keep == IsEvent("keep") /\ Same /\ Ev.same
TraceSpec == TraceInit /\ [][Points \/ Fwd \/ Inv \/ Mono \/ Back \/ Prod \/ Keep]_vars
=============================================================================
