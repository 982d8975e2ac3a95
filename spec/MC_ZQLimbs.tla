----------------------------- MODULE MC_ZQLimbs -----------------------------
(***************************************************************************)
(* The code's add loop, word by word and in place, with the other word     *)
(* algorithms as single steps, implements ZQMachine for every register     *)
(* content.  ReadFirst = FALSE is the loop as it was before the repair of  *)
(* A += A (it compares with A.data[i] after writing data[i]).              *)
(***************************************************************************)
EXTENDS Limbs, ZQ

CONSTANTS K, Reg, ReadFirst
VARIABLES ws,       \* Reg -> words
          pc,       \* "idle" or "add"
          dst, src, i, c,
          old       \* value of dst when the operation began
vars == <<ws, pc, dst, src, i, c, old>>

AllWords == { LWords(K, BI(v)) : v \in 0..(P2(K) - 1) }
R0 == CHOOSE r \in Reg : TRUE
Init == /\ ws \in [Reg -> AllWords]
        /\ pc = "idle" /\ dst = R0 /\ src = R0 /\ i = 1 /\ c = 0 /\ old = BI(0)

Idle(d, v) == /\ pc = "idle" /\ ws' = [ws EXCEPT ![d] = v]
              /\ UNCHANGED <<pc, dst, src, i, c, old>>
DoNeg(d)    == Idle(d, LNegate(K, ws[d]))
DoSub(d, s) == Idle(d, LSub(K, ws[d], ws[s]))
DoMul(d, s) == Idle(d, LMul(K, ws[d], ws[s]))
DoMulW(d, w)== Idle(d, LMulW(K, ws[d], w))
DoClean(d)  == Idle(d, LClean(K, ws[d]))
AddBegin(d, s) == /\ pc = "idle" /\ pc' = "add" /\ dst' = d /\ src' = s
                  /\ i' = 1 /\ c' = 0 /\ old' = LValue(ws[d]) /\ UNCHANGED ws
AddWord == /\ pc = "add" /\ i <= NW(K)
           /\ LET a == ws[src][i]
                  s == (ws[dst][i] + a) % WB
                  b == IF ReadFirst \/ src # dst THEN a ELSE s
                  t == IF c = 1 THEN (s + 1) % WB ELSE s
              IN /\ ws' = [ws EXCEPT ![dst][i] = t]
                 /\ c' = IF (c = 1 /\ t = 0) \/ s < b THEN 1 ELSE 0
           /\ i' = i + 1 /\ UNCHANGED <<pc, dst, src, old>>
AddEnd == /\ pc = "add" /\ i = NW(K) + 1
          /\ ws' = [ws EXCEPT ![dst] = LClean(K, ws[dst])]
          /\ pc' = "idle" /\ dst' = R0 /\ src' = R0 /\ i' = 1 /\ c' = 0 /\ old' = BI(0)

Next == \/ \E d, s \in Reg : DoSub(d, s) \/ DoMul(d, s) \/ AddBegin(d, s)
        \/ \E d \in Reg : DoNeg(d) \/ DoClean(d) \/ \E w \in 0..(WB - 1) : DoMulW(d, w)
        \/ AddWord \/ AddEnd
Spec == Init /\ [][Next]_vars

\* refinement: a half-done destination still shows its old value
M == INSTANCE ZQMachine WITH k <- K,
       reg <- [r \in Reg |-> IF pc = "add" /\ r = dst THEN old ELSE LValue(ws[r])]
MNext == \E d, s \in Reg : M!Add(d, s) \/ M!Sub(d, s) \/ M!Mul(d, s) \/ M!Neg(d) \/ M!Clean(d)
                           \/ \E w \in 0..(WB - 1) : M!MulW(d, BI(w))
Implements == [][MNext]_(M!zvars)
Canonical == M!Canonical
=============================================================================
