------------------------------- MODULE Tr_C01 -------------------------------
(***************************************************************************)
(* Every step of a real Z_Q program is a step of ZQMachine.                *)
(***************************************************************************)
EXTENDS ZQMachine, TraceLib

vars == <<zvars, l>>
TraceInit == l = 1 /\ k = 1 /\ reg = [r \in Reg |-> BI(0)]

\* a program starts with registers holding given residues of a new modulus
Begin == /\ IsEvent("begin") /\ k' = Ev.k
         /\ reg' = [r \in Reg |-> Ev.regs[r + 1]]
         /\ \A r \in Reg : ZCanon(Ev.k, Ev.regs[r + 1])
\* the logged destination is what the action says, and nothing else changed
Is(d) == reg'[d] = Ev.r /\ Ev.oth = <<>>
TLoad == IsEvent("load") /\ Load(Ev.d, Ev.r) /\ Is(Ev.d)
TCopy == IsEvent("copy") /\ Copy(Ev.d, Ev.s) /\ Is(Ev.d)
TZero == IsEvent("zero") /\ Zero(Ev.d)       /\ Is(Ev.d)
TAdd  == IsEvent("add")  /\ Add(Ev.d, Ev.s)  /\ Is(Ev.d)
TSub  == IsEvent("sub")  /\ Sub(Ev.d, Ev.s)  /\ Is(Ev.d)
TNeg  == IsEvent("neg")  /\ Neg(Ev.d)        /\ Is(Ev.d)
TMul  == IsEvent("mul")  /\ Mul(Ev.d, Ev.s)  /\ Is(Ev.d)
TMulW == IsEvent("mulw") /\ MulW(Ev.d, Ev.w) /\ Is(Ev.d)
TClean== IsEvent("clean")/\ Clean(Ev.d)      /\ Is(Ev.d)
\* the full projected state, at the end of a program
TDump == IsEvent("dump") /\ UNCHANGED zvars /\ \A r \in Reg : reg[r] = Ev.regs[r + 1]
\* remove_clutter on words with garbage above bit k
TClut == IsEvent("clut") /\ UNCHANGED zvars /\ Ev.r = Ev.x %% BPow2(k)

TraceNext == Begin \/ TLoad \/ TCopy \/ TZero \/ TAdd \/ TSub \/ TNeg \/ TMul \/ TMulW \/ TClean \/ TDump \/ TClut
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
