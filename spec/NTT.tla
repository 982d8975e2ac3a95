-------------------------------- MODULE NTT --------------------------------
(***************************************************************************)
(* What a negacyclic number-theoretic transform modulo the prime q is.  A  *)
(* transform is determined by its points p[1..N]: the N distinct roots of  *)
(* x^N + 1, in whatever order.  Forward: values at the points.             *)
(***************************************************************************)
EXTENDS BigInt, FiniteSets

NPoints(N, q, p) ==
  /\ Len(p) = N
  /\ \A j \in 1..N : BPowMod(p[j], BI(N), q) = (q -- BI(1)) /\ BI(0) \preceq p[j] /\ p[j] \prec q
  /\ Cardinality({p[j] : j \in 1..N}) = N
NCong(q, x, y) == (x -- y) %% q = BI(0)
\* r is the transform of a, at the points with index in J
NForward(q, p, a, r, J)  == \A j \in J : VEval(a, p[j], q) = r[j] %% q
\* r is the inverse transform of a: its values at the points are a
NInverse(q, p, a, r, J)  == \A j \in J : VEval(r, p[j], q) = a[j] %% q
NProduct(q, a, b, c)     == VMod(VNegacyclic(a, b), q) = VMod(c, q)
=============================================================================
