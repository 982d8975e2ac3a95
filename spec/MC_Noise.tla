------------------------------ MODULE MC_Noise ------------------------------
(***************************************************************************)
(* The error law behind the experiments: over all rounding errors e, each  *)
(* of the N coefficients independent and even on a grid of 2R+1 values,    *)
(* the mean of |e * p|^2 in Z[x]/(x^N+1) is N var |p|^2, and that of a sum *)
(* of K such products with rotated p is K times as much.  With one error   *)
(* shared by the terms (Shared) the law of the sum is rejected.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, R, K, P, Shared
ASSUME N \in {2, 4} /\ R >= 1 /\ K >= 1
Grid == (-R)..R
Errors == [1..N -> Grid]
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Sq(v) == Sum([i \in 1..N |-> v[i] * v[i]], N)
Conv(a, b) == [k \in 1..N |-> Sum([i \in 1..N |-> IF i <= k THEN a[i] * b[k - i + 1] ELSE 0 - (a[i] * b[N + k - i + 1])], N)]
\* x -> x^(5^r): coefficient i goes to place i 5^r mod 2N, with the sign of the fold
Rot(p, r) == [k \in 1..N |-> LET t == CHOOSE i \in 0..(N - 1) : (i * 5 ^ r) % N = k - 1
                             IN IF (t * 5 ^ r) % (2 * N) < N THEN p[t + 1] ELSE 0 - p[t + 1]]
Add(a, b) == [i \in 1..N |-> a[i] + b[i]]
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
\* sum over all choices of K errors of | sum_k e_k * rot_k(p) |^2
RECURSIVE Total(_, _, _)
Total(p, k, acc) == IF k = K THEN Sq(acc)
                    ELSE LET q == Rot(p, k) S == [e \in Errors |-> Total(p, k + 1, Add(acc, Conv(e, q)))]
                         IN SumOver(S, Errors)
RECURSIVE SharedSum(_, _, _)
SharedSum(p, e, k) == IF k = 0 THEN [i \in 1..N |-> 0] ELSE Add(SharedSum(p, e, k - 1), Conv(e, Rot(p, k - 1)))
TotalShared(p) == SumOver([e \in Errors |-> Sq(SharedSum(p, e, K))], Errors)
Zero == [i \in 1..N |-> 0]
Sqs == 2 * Sum([j \in 1..R |-> j * j], R)              \* (2R+1) times the variance
VARIABLE p
Init == p \in [1..N -> (-P)..P]
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
G == 2 * R + 1
\* mean * G^(NK) = K * N * (Sqs / G) * |p|^2 * G^(NK)
Law == IF Shared THEN TotalShared(p) * G = K * N * Sqs * Sq(p) * G ^ N
       ELSE Total(p, 0, Zero) * G = K * N * Sqs * Sq(p) * G ^ (N * K)
RotKeeps == \A r \in 0..(N - 1) : Sq(Rot(p, r)) = Sq(p)
=============================================================================
