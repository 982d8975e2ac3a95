------------------------------- MODULE Tr_C11 -------------------------------
(* Every step of a real ciphertext program is a step of HEMachine, read through the phase. *)
EXTENDS HEMachine, TraceLib
vars == <<hvars, l>>
TraceInit == l = 1 /\ n = 0 /\ size = <<>> /\ key = <<>> /\ ph = <<>>
\* a program: key, sizes, and all registers
Begin == /\ IsEvent("begin") /\ n' = Ev.n /\ key' = Ev.key /\ Ternary(key') /\ Len(key') = n'
         /\ size' = [lv \in Lvl |-> Ev.size[lv + 1]]
         /\ ph' = [lv \in Lvl |-> [r \in Reg |-> Phase(size'[lv], Ev.regs[lv + 1][r + 1], key')]]
\* the logged ciphertext of the destination is canonical, its phase is the action's, and no other register or operand changed
Got(lv) == Phase(size[lv], Ev.ct, key)
Ok(lv, d) == CtCanon(size[lv], n, Ev.ct) /\ ph'[lv][d] = Got(lv) /\ Ev.oth = <<>>
TLoad == IsEvent("load") /\ HLoad(Ev.lv, Ev.d, Got(Ev.lv)) /\ Ok(Ev.lv, Ev.d)
TCopy == IsEvent("copy") /\ HCopy(Ev.lv, Ev.d, Ev.s) /\ Ok(Ev.lv, Ev.d)
TZero == IsEvent("zero") /\ HZero(Ev.lv, Ev.d) /\ Ok(Ev.lv, Ev.d)
TAdd  == IsEvent("add")  /\ HAdd(Ev.lv, Ev.d, Ev.s) /\ Ok(Ev.lv, Ev.d)
TSub  == IsEvent("sub")  /\ HSub(Ev.lv, Ev.d, Ev.s) /\ Ok(Ev.lv, Ev.d)
TMulW == IsEvent("mulw") /\ HMulW(Ev.lv, Ev.d, Ev.w) /\ Ok(Ev.lv, Ev.d)
TMulP == IsEvent("mulp") /\ HMulP(Ev.lv, Ev.d, Ev.p) /\ Ok(Ev.lv, Ev.d)
TRs   == IsEvent("rs")   /\ HRescale(Ev.lv, Ev.d, Ev.s, Got(Ev.lv + 1)) /\ Ok(Ev.lv + 1, Ev.d)
TraceSpec == TraceInit /\ [][Begin \/ TLoad \/ TCopy \/ TZero \/ TAdd \/ TSub \/ TMulW \/ TMulP \/ TRs]_vars
=============================================================================
