-------------------------------- MODULE RNS --------------------------------
(***************************************************************************)
(* Residue number systems.  A basis is a sequence of distinct odd primes.  *)
(* A vector of words represents an integer when it is congruent to it      *)
(* modulo every prime of the basis.                                        *)
(***************************************************************************)
EXTENDS ZQ

RECURSIVE BProdFrom(_, _)
BProdFrom(q, i) == IF i > Len(q) THEN BI(1) ELSE q[i] ** BProdFrom(q, i + 1)
BProd(q) == BProdFrom(q, 1)

RDistinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
ROdd(q)      == \A i \in 1..Len(q) : q[i] %% BI(2) = BI(1) /\ BI(2) \prec q[i]

\* the idempotents: 1 modulo q[i], 0 modulo the others
RIdem(q)     == LET Q == BProd(q)
                IN [i \in 1..Len(q) |-> LET c == Q // q[i]
                                        IN c ** BPowMod(c %% q[i], q[i] -- BI(2), q[i])]
RIdemOK(q, e) == \A i, j \in 1..Len(q) : e[i] %% q[j] = IF i = j THEN BI(1) ELSE BI(0)

\* r represents the integer v
Represents(q, r, v) == \A i \in 1..Len(q) : r[i] %% q[i] = v %% q[i]
\* the words are naturals (not necessarily reduced)
RWords(q, r) == Len(r) = Len(q) /\ \A i \in 1..Len(q) : BI(0) \preceq r[i]
\* the integer of least magnitude that r represents; Q is the product, e the idempotents
RCombine(Q, e, r) == BCenter(BDot(r, e), Q)
=============================================================================
