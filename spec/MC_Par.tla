------------------------------- MODULE MC_Par -------------------------------
(***************************************************************************)
(* The three parallel loops of a product through a prime basis as threads  *)
(* interleaving single memory accesses: decomposition by coefficient,      *)
(* transform-multiply-transform by prime, recombination by coefficient.    *)
(* Any idle thread takes any remaining iteration, so every distribution    *)
(* and every interleaving is explored.  SharedTemp makes the temporary of  *)
(* an iteration shared between threads (as a missing "private" would):     *)
(* must be rejected.  ByCoef makes the middle loop run over coefficients   *)
(* (butterflies then cross iterations): must be rejected.                  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS T, SharedTemp, ByCoef
N == 2                        \* coefficients
L == 2                        \* primes
Qp == <<5, 13>>               \* = 1 mod 4
Psi == <<2, 5>>               \* primitive 4th roots of unity
IPsi == <<3, 8>>
Inv2 == <<3, 7>>
Threads == 1..T
VARIABLES a, b, ra, rb, rc, c, phase, left, it, pc, tmp
vars == <<a, b, ra, rb, rc, c, phase, left, it, pc, tmp>>
Iter(p) == IF p = 2 THEN (IF ByCoef THEN 1..N ELSE 1..L) ELSE 1..N
Slot(t) == IF SharedTemp THEN 1 ELSE t
Vals == {0, 1, 4}
Init == /\ a \in [1..N -> Vals] /\ b \in [1..N -> {1, 3}]
        /\ ra = [j \in 1..L |-> [i \in 1..N |-> 0]] /\ rb = ra /\ rc = ra /\ c = [i \in 1..N |-> <<0, 0>>]
        /\ phase = 1 /\ left = Iter(1) /\ it = [t \in Threads |-> 0] /\ pc = [t \in Threads |-> 0] /\ tmp = [t \in Threads |-> <<0, 0>>]
Take(t) == /\ it[t] = 0 /\ left # {} /\ \E x \in left : left' = left \ {x} /\ it' = [it EXCEPT ![t] = x]
           /\ pc' = [pc EXCEPT ![t] = 1] /\ UNCHANGED <<a, b, ra, rb, rc, c, phase, tmp>>
Done(t) == it' = [it EXCEPT ![t] = 0] /\ pc' = [pc EXCEPT ![t] = 0]
Step(t) == pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED it
\* decomposition of coefficient i of a and b: residues into the temporary, then out, one prime at a time
Dec(t) == /\ phase = 1 /\ it[t] # 0 /\ UNCHANGED <<a, b, rc, c, phase, left>>
          /\ LET i == it[t] s == Slot(t) IN
             \/ pc[t] = 1 /\ tmp' = [tmp EXCEPT ![s] = <<a[i] % 5, a[i] % 13>>] /\ Step(t) /\ UNCHANGED <<ra, rb>>
             \/ pc[t] \in {2, 3} /\ ra' = [ra EXCEPT ![pc[t] - 1][i] = tmp[s][pc[t] - 1]] /\ Step(t) /\ UNCHANGED <<rb, tmp>>
             \/ pc[t] = 4 /\ rb' = [j \in 1..L |-> [rb[j] EXCEPT ![i] = b[i] % Qp[j]]] /\ Done(t) /\ UNCHANGED <<ra, tmp>>
\* row j: forward butterflies in place, product, inverse butterfly; each element access is one step
Row(t) == /\ phase = 2 /\ ~ByCoef /\ it[t] # 0 /\ UNCHANGED <<a, b, c, phase, left>>
          /\ LET j == it[t] q == Qp[j] s == Slot(t)
                 bf(v) == <<(v[1] + v[2] * Psi[j]) % q, (v[1] + q * q - v[2] * Psi[j]) % q>> IN
             \/ pc[t] = 1 /\ tmp' = [tmp EXCEPT ![s] = ra[j]] /\ Step(t) /\ UNCHANGED <<ra, rb, rc>>
             \/ pc[t] = 2 /\ ra' = [ra EXCEPT ![j] = bf(tmp[s])] /\ Step(t) /\ UNCHANGED <<rb, rc, tmp>>
             \/ pc[t] = 3 /\ rb' = [rb EXCEPT ![j] = bf(rb[j])] /\ Step(t) /\ UNCHANGED <<ra, rc, tmp>>
             \/ pc[t] = 4 /\ rc' = [rc EXCEPT ![j] = <<(ra[j][1] * rb[j][1]) % q, (ra[j][2] * rb[j][2]) % q>>] /\ Step(t) /\ UNCHANGED <<ra, rb, tmp>>
             \/ pc[t] = 5 /\ tmp' = [tmp EXCEPT ![s] = rc[j]] /\ Step(t) /\ UNCHANGED <<ra, rb, rc>>
             \/ pc[t] = 6 /\ rc' = [rc EXCEPT ![j] = <<((tmp[s][1] + tmp[s][2]) * Inv2[j]) % q, ((tmp[s][1] + q - tmp[s][2]) * IPsi[j] * Inv2[j]) % q>>]
                          /\ Done(t) /\ UNCHANGED <<ra, rb, tmp>>
\* the same work distributed by coefficient: element i of every row, reading its butterfly partner from the shared arrays
Col(t) == /\ phase = 2 /\ ByCoef /\ it[t] # 0 /\ UNCHANGED <<a, b, c, phase, left>>
          /\ LET i == it[t] s == t
                 bf(v, j) == IF i = 1 THEN (v[1] + v[2] * Psi[j]) % Qp[j] ELSE (v[1] + Qp[j] * Qp[j] - v[2] * Psi[j]) % Qp[j] IN
             \/ pc[t] = 1 /\ ra' = [j \in 1..L |-> [ra[j] EXCEPT ![i] = bf(ra[j], j)]] /\ Step(t) /\ UNCHANGED <<rb, rc, tmp>>
             \/ pc[t] = 2 /\ rb' = [j \in 1..L |-> [rb[j] EXCEPT ![i] = bf(rb[j], j)]] /\ Step(t) /\ UNCHANGED <<ra, rc, tmp>>
             \/ pc[t] = 3 /\ rc' = [j \in 1..L |-> [rc[j] EXCEPT ![i] = (ra[j][i] * rb[j][i]) % Qp[j]]] /\ Step(t) /\ UNCHANGED <<ra, rb, tmp>>
             \/ pc[t] = 4 /\ rc' = [j \in 1..L |-> [rc[j] EXCEPT ![i] = IF i = 1 THEN ((rc[j][1] + rc[j][2]) * Inv2[j]) % Qp[j]
                                                                                 ELSE ((rc[j][1] + Qp[j] - rc[j][2]) * IPsi[j] * Inv2[j]) % Qp[j]]]
                          /\ Done(t) /\ UNCHANGED <<ra, rb, tmp>>
Rec(t) == /\ phase = 3 /\ it[t] # 0 /\ UNCHANGED <<a, b, ra, rb, rc, phase, left>>
          /\ LET i == it[t] s == Slot(t) IN
             \/ pc[t] \in {1, 2} /\ tmp' = [tmp EXCEPT ![s][pc[t]] = rc[pc[t]][i]] /\ Step(t) /\ UNCHANGED c
             \/ pc[t] = 3 /\ c' = [c EXCEPT ![i] = tmp[s]] /\ Done(t) /\ UNCHANGED tmp
Join == /\ left = {} /\ \A t \in Threads : it[t] = 0 /\ phase < 4
        /\ phase' = phase + 1 /\ left' = IF phase < 3 THEN Iter(phase + 1) ELSE {}
        /\ UNCHANGED <<a, b, ra, rb, rc, c, it, pc, tmp>>
Next == (\E t \in Threads : Take(t) \/ Dec(t) \/ Row(t) \/ Col(t) \/ Rec(t)) \/ Join
Spec == Init /\ [][Next]_vars
\* whatever the schedule, the residues of the negacyclic product (plus a multiple of the prime, to stay natural)
Prod(j) == <<(a[1] * b[1] + Qp[j] * Qp[j] * 9 - a[2] * b[2]) % Qp[j], (a[1] * b[2] + a[2] * b[1]) % Qp[j]>>
Result == phase = 4 => \A i \in 1..N : \A j \in 1..L : c[i][j] = Prod(j)[i]
=============================================================================
