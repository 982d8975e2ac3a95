------------------------------ MODULE MC_Boot ------------------------------
(***************************************************************************)
(* Bootstrapping of one coefficient, with errors: a value modulo 2^a is    *)
(* raised to 2^lvl; CoeffToSlot adds an error e to it, reduction modulo    *)
(* 2^a takes the nearest multiple away, SlotToCoeff adds an error f.  The  *)
(* conventional result has both errors; EvalRound's has only f, as long as *)
(* e does not reach the next multiple.  Every stage drops bits of the      *)
(* modulus; a value is known only modulo 2^lvl.                            *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS A,            \* bits of the base modulus
          Msg,          \* messages are -Msg .. Msg
          I, E, Fe,     \* multiples -I .. I, errors -E .. E and -Fe .. Fe
          Top, DropC, DropM, DropS,   \* bits at the top, and of the stages
          Keep          \* what is subtracted in the end: from "raised" (right) or from "slots"
VARIABLES pc, lvl, m, e, raised, slots, val, var
vars == <<pc, lvl, m, e, raised, slots, val, var>>
\* the representative of x modulo 2^b nearest zero
Cen(x, b) == LET r == x % (2 ^ b) IN IF 2 * r >= 2 ^ b THEN r - 2 ^ b ELSE r
Near(x) == (x + 2 ^ (A - 1)) \div (2 ^ A)
Init == /\ pc = "low" /\ lvl = A /\ m \in (0 - Msg)..Msg /\ val = m % (2 ^ A)
        /\ e = 0 /\ raised = 0 /\ slots = 0 /\ var \in {"conv", "round"}
Raise == /\ pc = "low" /\ pc' = "raised" /\ lvl' = Top
         /\ \E i \in (0 - I)..I : raised' = (m + i * 2 ^ A) % (2 ^ Top)
         /\ val' = raised' /\ UNCHANGED <<m, e, slots, var>>
Cts == /\ pc = "raised" /\ pc' = "slots" /\ lvl' = lvl - DropC
       /\ e' \in (0 - E)..E /\ val' = (Cen(val, lvl) + e') % (2 ^ (lvl - DropC)) /\ slots' = val' /\ UNCHANGED <<m, raised, var>>
Mod == /\ pc = "slots" /\ lvl' = lvl - DropM
       /\ LET x == Cen(val, lvl) y == x - Near(x) * 2 ^ A
          IN val' = IF var = "conv" THEN y % (2 ^ (lvl - DropM)) ELSE ((slots % (2 ^ (lvl - DropM))) - y) % (2 ^ (lvl - DropM))
       /\ pc' = "mod" /\ UNCHANGED <<m, e, raised, slots, var>>
Stc == /\ pc = "mod" /\ pc' = (IF var = "conv" THEN "done" ELSE "qi") /\ lvl' = lvl - DropS
       /\ \E g \in (0 - Fe)..Fe : val' = (Cen(val, lvl) + g) % (2 ^ (lvl - DropS)) /\ UNCHANGED <<m, e, raised, slots, var>>
Sub == /\ pc = "qi" /\ pc' = "done" /\ val' = ((IF Keep = "raised" THEN raised ELSE slots) - val) % (2 ^ lvl)
       /\ UNCHANGED <<lvl, m, e, raised, slots, var>>
Next == Raise \/ Cts \/ Mod \/ Stc \/ Sub
Spec == Init /\ [][Next]_vars
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
Fits == AbsI(m + e) < 2 ^ (A - 1)        \* the message and the error stay below half the base modulus
Right == pc = "done" /\ Fits => AbsI(Cen(val, lvl) - m - (IF var = "conv" THEN e ELSE 0)) <= Fe
Nominal == pc = "done" => lvl = Top - DropC - DropM - DropS
=============================================================================
