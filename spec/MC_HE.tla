-------------------------------- MODULE MC_HE --------------------------------
(***************************************************************************)
(* Key switching at a toy size: every target key, source key with entries  *)
(* -2..2, noise within B, masks from Masks, and component from   *)
(* Comps (the other one only adds to both sides).  The design - multiply the     *)
(* switching key by the unsigned component modulo 2^2k, rescale to 2^k -   *)
(* meets the bound 8N + (h+1)/2 (here 1*N, the noise bound being 1).       *)
(* Products of ciphertexts and automorphisms are this step applied to the  *)
(* product of the second components and to the image of the ciphertext, so *)
(* the same bound carries over: ProductIsSwitch, AutoIsSwitch.             *)
(* Floor (rescaling without rounding) and noise B above the bound NB must   *)
(* be rejected.                                                            *)
(***************************************************************************)
EXTENDS HE, Integers
CONSTANTS N, K, B, NB, Masks, Comps, Floor
VARIABLES s, t, e, mask, c1, c0
vars == <<s, t, e, mask, c1, c0>>
Vec(S) == [1..N -> S]
Init == /\ s \in Vec({-1, 0, 1}) /\ t \in {<<1, 0>>, <<-2, 1>>, <<0, 2>>} /\ e \in Vec({-B, 0, B}) /\ mask \in Vec(Masks)
        /\ c1 \in Vec(Comps) /\ c0 \in {<<3, 14>>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Q == BPow2(K)
Swk == <<VMod(VAdd(VAdd(VScale(Ints(t), Q), Ints(e)), VNeg(VNegacyclic(Ints(s), Ints(mask)))), BPow2(2 * K)), Ints(mask)>>
Rs(v) == IF Floor THEN VMod(VDiv(v, Q), Q) ELSE VMod(VDiv(VAdd(v, VScale([i \in 1..N |-> BI(1)], BPow2(K - 1))), Q), Q)
Ks(swk, ct) == LET p == PMul(2 * K, swk[1], ct[2]) q == PMul(2 * K, swk[2], ct[2]) IN <<VMod(VAdd(Rs(p), ct[1]), Q), Rs(q)>>
Bound == 2 * NB * N + Weight(s) + 1
Ct == <<Ints(c0), Ints(c1)>>
Bounded == LET out == Ks(Swk, Ct) IN CtCanon(K, N, out) /\ Near(K, Phase(K, out, s), Phase(K, Ct, t), Bound)
\* phase is multiplicative up to the square of the key, and equivariant
ProductIsSwitch == LET a == Ct b == <<Ints(mask), Ints(c1)>> IN
  VMod(VAdd(Phase(K, <<PMul(K, a[1], b[1]), VAdd(PMul(K, a[1], b[2]), PMul(K, a[2], b[1]))>>, s), PMul(K, SquareKey(s), PMul(K, a[2], b[2]))), Q)
    = PMul(K, Phase(K, a, s), Phase(K, b, s))
AutoIsSwitch == \A g \in {1, 5, -1} : LET sg == VAuto(Ints(s), g) IN
  VMod(VAuto(Phase(K, Ct, s), g), Q) = VMod(VAdd(VAuto(Ct[1], g), VNegacyclic(sg, VAuto(Ct[2], g))), Q)
=============================================================================
