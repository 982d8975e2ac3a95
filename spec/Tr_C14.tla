------------------------------- MODULE Tr_C14 -------------------------------
(* Recorded rotations and conjugations.  The state is what the program holds: a vector of small integers (key), a plaintext, *)
(* a floating-point plaintext (integers stored in doubles) and the phase of a ciphertext; g is the product of the            *)
(* automorphisms applied so far, so that the composition law is checked against the start of the program as well.            *)
EXTENDS HE, TraceLib
VARIABLES n, k, x0, x, g
cvars == <<n, k, x0, x, g>>
TraceInit == l = 1 /\ n = 0 /\ k = 0 /\ x0 = <<>> /\ x = <<>> /\ g = 1
\* programs over integer vectors (k = 0) and over residues modulo 2^k
Red(v) == IF k = 0 THEN v ELSE VMod(v, BPow2(k))
Begin == IsEvent("begin") /\ n' = Ev.n /\ k' = Ev.k /\ x0' = Ev.x /\ x' = Ev.x /\ Len(Ev.x) = n' /\ g' = 1
Exp(nn, op, r) == IF op = "conj" THEN 2 * nn - 1 ELSE Rot5(nn, r)
\* exact automorphisms
Auto == /\ IsEvent("auto") /\ Ev.same /\ LET h == Exp(n, Ev.op, Ev.r) IN
             /\ g' = BToInt((BI(g) ** BI(h)) %% BI(2 * n)) /\ Ev.x = Red(VAuto(x, h)) /\ Ev.x = Red(VAuto(x0, g')) /\ x' = Ev.x
        /\ UNCHANGED <<n, k, x0>>
\* on ciphertexts: one step, with the key it used
CtAuto == /\ IsEvent("ct") /\ Ternary(Ev.s) /\ Ev.same /\ CtCanon(Ev.k, Len(Ev.s), Ev.out)
          /\ \E nn \in {Len(Ev.s)} : \E h \in {Exp(nn, Ev.op, Ev.r)} : \E srot \in {VAuto(Ints(Ev.s), h)} :
               /\ SwkRel(Ev.k, [i \in 1..nn |-> BToInt(srot[i])], Ev.s, Ev.swk)
               /\ AutoRel(Ev.k, nn, Ev.s, h, Phase(Ev.k, Ev.in, Ev.s), Phase(Ev.k, Ev.out, Ev.s))
          /\ UNCHANGED cvars
\* a polynomial too long to log whole: given pairs of coefficients of the result, and the source coefficients they must be
Point == /\ IsEvent("pt")
         /\ LET h == Exp(Ev.n, Ev.op, Ev.r) IN
              \A i \in 1..Len(Ev.src) : LET j == BToInt((BI(h) ** BI(Ev.at[i])) %% BI(2 * Ev.n)) IN
                  /\ Ev.to[i] = j % Ev.n
                  /\ Ev.dst[i] = VMod(<<IF j < Ev.n THEN Ev.src[i] ELSE BNeg(Ev.src[i])>>, BPow2(Ev.k))[1]
         /\ UNCHANGED cvars
TraceSpec == TraceInit /\ [][Begin \/ Auto \/ CtAuto \/ Point]_<<cvars, l>>
=============================================================================
