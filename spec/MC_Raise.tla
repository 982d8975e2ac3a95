------------------------------ MODULE MC_Raise ------------------------------
(* Raising the modulus by sign extension, for every key and ciphertext at a toy size; without the sign it must be rejected. *)
EXTENDS HE, Integers
CONSTANTS N, A, B, Signed
VARIABLES s, ct
vars == <<s, ct>>
Init == s \in [1..N -> {-1, 0, 1}] /\ ct \in [1..2 -> [1..N -> 0..(2 ^ A - 1)]]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
C == <<Ints(ct[1]), Ints(ct[2])>>
Up == [i \in 1..2 |-> IF Signed THEN VMod(VCenter(C[i], BPow2(A)), BPow2(B)) ELSE C[i]]
Ok == RaiseRel(A, B, s, Phase(A, C, s), Phase(B, Up, s)) /\ [i \in 1..2 |-> VMod(Up[i], BPow2(A))] = C
=============================================================================
