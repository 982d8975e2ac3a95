------------------------------- MODULE GenZQ --------------------------------
(***************************************************************************)
(* Programs for the register machine: random behaviours of ZQMachine (its  *)
(* own actions, at k = 3), one line of operations each.                    *)
(***************************************************************************)
EXTENDS ZQMachine, TLC, IOUtils, CSV, Sequences

CONSTANT Depth
VARIABLES h, n

Ops == <<"load", "copy", "zero", "add", "add", "add", "add", "sub", "sub", "sub", "mul", "mul", "mulw", "mulw", "neg", "neg", "clean">>
Do(name, d, s) == h' = h \o name \o " " \o ToString(d) \o " " \o ToString(s) \o ";" /\ n' = n + 1

Init == k = 3 /\ reg = [r \in Reg |-> BI(0)] /\ h = "" /\ n = 0
Step == /\ n < Depth
        /\ \E op \in {Ops[RandomElement(1..Len(Ops))]}, d \in {RandomElement(Reg)}, s \in {RandomElement(Reg)},
              m \in {RandomElement(0..3)}, w \in {RandomElement(0..8)} :
             \/ op = "load"  /\ Load(d, BI(w % 8)) /\ Do(op, d, m)
             \/ op = "copy"  /\ Copy(d, s) /\ Do(op, d, s)
             \/ op = "zero"  /\ Zero(d)    /\ Do(op, d, 0)
             \/ op = "add"   /\ Add(d, s)  /\ Do(op, d, s)
             \/ op = "sub"   /\ Sub(d, s)  /\ Do(op, d, s)
             \/ op = "mul"   /\ Mul(d, s)  /\ Do(op, d, s)
             \/ op = "mulw"  /\ MulW(d, BI(w)) /\ Do(op, d, w)
             \/ op = "neg"   /\ Neg(d)     /\ Do(op, d, 0)
             \/ op = "clean" /\ Clean(d)   /\ Do(op, d, 0)
Emit == n = Depth /\ CSVWrite("%1$s", <<h>>, IOEnv.OUT) /\ n' = n + 1 /\ UNCHANGED <<zvars, h>>
Spec == Init /\ [][Step \/ Emit]_<<zvars, h, n>>
=============================================================================
