------------------------------- MODULE GenHE --------------------------------
(* Programs for the ciphertext register machine: its random behaviours at toy sizes. *)
EXTENDS HEMachine, TLC, IOUtils, CSV, Naturals
CONSTANT Depth
VARIABLES h, m
Ops == <<"load", "copy", "zero", "add", "add", "add", "sub", "sub", "mulw", "mulw", "mulp", "mulp", "rs", "rs">>
Do(nm, lv, d, s) == h' = h \o nm \o " " \o ToString(lv) \o " " \o ToString(d) \o " " \o ToString(s) \o ";" /\ m' = m + 1
Toy == <<BI(1), BI(2)>>
Init == /\ n = 2 /\ size = [lv \in Lvl |-> 9 - 3 * lv] /\ key = <<1, -1>>
        /\ ph = [lv \in Lvl |-> [r \in Reg |-> PZero(2)]] /\ h = "" /\ m = 0
Step == /\ m < Depth
        /\ \E op \in {Ops[RandomElement(1..Len(Ops))]}, lv \in {RandomElement(Lvl)}, d \in {RandomElement(Reg)}, s \in {RandomElement(Reg)}, x \in {RandomElement(0..8)} :
             \/ op = "load" /\ HLoad(lv, d, <<BI(x % 8), BI(1)>>) /\ Do(op, lv, d, x)
             \/ op = "copy" /\ HCopy(lv, d, s) /\ Do(op, lv, d, s)
             \/ op = "zero" /\ x = 0 /\ HZero(lv, d) /\ Do(op, lv, d, 0)
             \/ op = "zero" /\ x # 0 /\ HAdd(lv, d, d) /\ Do("add", lv, d, d)
             \/ op = "add"  /\ HAdd(lv, d, s) /\ Do(op, lv, d, s)
             \/ op = "sub"  /\ HSub(lv, d, s) /\ Do(op, lv, d, s)
             \/ op = "mulw" /\ HMulW(lv, d, BI(x)) /\ Do(op, lv, d, x)
             \/ op = "mulp" /\ HMulP(lv, d, Toy) /\ Do(op, lv, d, x)
             \/ op = "rs"   /\ lv < 2 /\ HRescale(lv, d, s, VMod(VDiv(ph[lv][s], BI(8)), BPow2(size[lv + 1]))) /\ Do(op, lv, d, s)
             \/ op = "rs"   /\ lv = 2 /\ HAdd(lv, d, s) /\ Do("add", lv, d, s)
Emit == m = Depth /\ CSVWrite("%1$s", <<h>>, IOEnv.OUT) /\ m' = m + 1 /\ UNCHANGED <<hvars, h>>
Spec == Init /\ [][Step \/ Emit]_<<hvars, h, m>>
=============================================================================
