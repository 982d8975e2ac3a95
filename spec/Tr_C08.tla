------------------------------- MODULE Tr_C08 -------------------------------
(* Recorded polynomial products against Z[x]/(x^N+1) modulo 2^k. *)
EXTENDS Poly, TraceLib
TraceInit == l = 1
\* full product; al: which operand the result overwrote (0 none)
Full == IsEvent("full") /\ Ev.same /\ PCanon(Ev.k, Ev.a) /\ PCanon(Ev.k, Ev.b) /\ Ev.c = PMul(Ev.k, Ev.a, Ev.b)
\* product of two constant vectors
Cons == IsEvent("const") /\ Ev.same /\ Ev.c = PConstMul(Ev.k, Ev.n, Ev.x, Ev.y)
Tern == IsEvent("tern") /\ Ev.same /\ Ev.c = PMul(Ev.k, [i \in 1..Len(Ev.s) |-> BI(Ev.s[i])], Ev.a)
Ints == IsEvent("ints") /\ Ev.same
        /\ [i \in 1..Len(Ev.c) |-> BI(Ev.c[i])] = VNegacyclic([i \in 1..Len(Ev.a) |-> BI(Ev.a[i])], [i \in 1..Len(Ev.b) |-> BI(Ev.b[i])])
TraceSpec == TraceInit /\ [][Full \/ Cons \/ Tern \/ Ints]_l
=============================================================================
