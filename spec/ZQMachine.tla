----------------------------- MODULE ZQMachine ------------------------------
(***************************************************************************)
(* A register machine over residues modulo 2^k: the state a program using  *)
(* Z_Q<k> has, and one action per operation.  Source and destination may   *)
(* be the same register.                                                   *)
(***************************************************************************)
EXTENDS ZQ, Naturals

CONSTANT Reg            \* register names
VARIABLES k,            \* modulus size
          reg           \* Reg -> canonical residue

zvars == <<k, reg>>

Set(d, v) == reg' = [reg EXCEPT ![d] = v] /\ k' = k

Load(d, v)   == ZCanon(k, v) /\ Set(d, v)
Copy(d, s)   == Set(d, reg[s])
Zero(d)      == Set(d, BI(0))
Add(d, s)    == Set(d, ZAdd(k, reg[d], reg[s]))
Sub(d, s)    == Set(d, ZSub(k, reg[d], reg[s]))
Neg(d)       == Set(d, ZNeg(k, reg[d]))
Mul(d, s)    == Set(d, ZMul(k, reg[d], reg[s]))
MulW(d, w)   == Set(d, ZMul(k, reg[d], w))
Clean(d)     == Set(d, reg[d])              \* remove_clutter on a canonical value

Canonical == \A r \in Reg : ZCanon(k, reg[r])
=============================================================================
