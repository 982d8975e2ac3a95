------------------------------ MODULE MC_Conv -------------------------------
(***************************************************************************)
(* Products through a prime basis at small sizes: the number of primes     *)
(* chosen from k makes the product of the primes larger than twice any     *)
(* coefficient, so the recombined value is the integer coefficient, for    *)
(* every pair of operands.  Slack shortens the basis and must be rejected. *)
(***************************************************************************)
EXTENDS RNS, Poly
CONSTANTS N, LogN, PB, MaxK, Slack
Table == <<29, 17, 13, 5>>             \* primes = 1 mod 4, below 2^5
VARIABLES k, a, b
vars == <<k, a, b>>
L == (2 * k + LogN + PB - 1 - Slack) \div PB
Res(K) == 0..(2 ^ K - 1)
Init == k \in 1..MaxK /\ a \in [1..N -> Res(k)] /\ b \in [1..N -> Res(k)]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
B(v) == [i \in 1..N |-> BI(v[i])]
Basis == [i \in 1..L |-> BI(Table[i])]
Idem  == RIdem(Basis)
Coef == VNegacyclic(PSigned(k, B(a)), PSigned(k, B(b)))
Back(x) == RCombine(BProd(Basis), Idem, [i \in 1..L |-> x %% Basis[i]])
Exact == \A i \in 1..N : Back(Coef[i]) %% BPow2(k) = PMul(k, B(a), B(b))[i]
=============================================================================
