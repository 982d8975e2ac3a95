-------------------------------- MODULE Poly --------------------------------
(* Z[x]/(x^N+1) and its quotients modulo 2^k: polynomials are sequences of coefficients. *)
EXTENDS ZQ

PZero(n)      == [i \in 1..n |-> BI(0)]
PCanon(k, a)  == \A i \in 1..Len(a) : ZCanon(k, a[i])
PMod(k, a)    == VMod(a, BPow2(k))
PSigned(k, a) == VCenter(a, BPow2(k))
PMul(k, a, b) == VMod(VNegacyclic(a, b), BPow2(k))
\* all coefficients equal: x^i of the square of (1 + x + ... + x^(n-1)) is 2(i+1) - n
PConstMul(k, n, x, y) == LET p == x ** y IN [i \in 1..n |-> (p ** BI(2 * i - n)) %% BPow2(k)]
=============================================================================
