--------------------------------- MODULE ZQ ---------------------------------
(***************************************************************************)
(* Residues modulo 2^k.  A residue is the canonical natural below 2^k that *)
(* the words of a Z_Q<k> spell.  These operators say what every operation  *)
(* of Z_Q.h returns; they know nothing of words and carries.               *)
(***************************************************************************)
EXTENDS BigInt

ZCanon(k, x)     == (BI(0) \preceq x) /\ (x \prec BPow2(k))
ZAdd(k, a, b)    == (a ++ b) %% BPow2(k)
ZSub(k, a, b)    == (a -- b) %% BPow2(k)
ZNeg(k, a)       == BNeg(a) %% BPow2(k)
ZMul(k, a, b)    == (a ** b) %% BPow2(k)     \* also by a word: the word is an integer
\* the integer a residue is read as
ZSigned(k, a)    == BCenter(a, BPow2(k))
ZIsNeg(k, a)     == BPow2(k - 1) \preceq a
\* moving between moduli
ZResize(f, t, a) == ZSigned(f, a) %% BPow2(t)
ZScaleUp(f, t, a)   == a ** BPow2(t - f)                                   \* f <= t
ZScaleDown(f, t, a) == IF f = t THEN a                                      \* f >= t
                       ELSE ((a ++ BPow2(f - t - 1)) // BPow2(f - t)) %% BPow2(t)
\* words
B2_64 == BPow2(64)
=============================================================================
