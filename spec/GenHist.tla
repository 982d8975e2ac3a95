------------------------------ MODULE GenHist -------------------------------
(* Call histories: random behaviours of the process; half of the calls go back to operations the history has already called. *)
EXTENDS History, TLC, IOUtils, CSV
CONSTANT Depth
VARIABLES h, m, done
Do(z, a, s) == h' = h \o ToString(z) \o " " \o ToString(a) \o " " \o ToString(s) \o ";" /\ m' = m + 1 /\ done' = done \union {z}
Init == HInit /\ h = "" /\ m = 0 /\ done = {}
Step == /\ m < Depth
        /\ \E back \in {RandomElement(0..1)}, a \in {RandomElement(Arg)}, s \in {RandomElement(Seed)} :
           \E z \in {RandomElement(IF back = 1 /\ done # {} THEN done ELSE Size)} : HCall("rand", z, a, s) /\ Do(z, a, s)
Emit == m = Depth /\ CSVWrite("%1$s", <<h>>, IOEnv.OUT) /\ m' = m + 1 /\ UNCHANGED <<hvars, h, done>>
Spec == Init /\ [][Step \/ Emit]_<<hvars, h, m, done>>
=============================================================================
