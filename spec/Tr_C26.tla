------------------------------- MODULE Tr_C26 -------------------------------
(***************************************************************************)
(* A process calls operations; every call ends with no access outside an   *)
(* object, no use of storage past its life, no undefined shift, division,  *)
(* index or conversion, and with the arguments as they were.  Storage may  *)
(* be taken for tables at first use; a call made over and over does not     *)
(* leave more in use every time (Patience calls in a row).                 *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES running, op, grown
Patience == 6
TraceInit == l = 1 /\ running = FALSE /\ op = <<>> /\ grown = 0
Process == IsEvent("process") /\ ~running /\ running' = TRUE /\ op' = <<>> /\ grown' = 0
Call == /\ IsEvent("call") /\ running /\ Ev.faults = <<>> /\ Ev.same /\ UNCHANGED running
        /\ op' = <<Ev.op, Ev.arg>>
        /\ grown' = IF ~Ev.grew THEN 0 ELSE IF op' = op THEN grown + 1 ELSE 1
        /\ grown' < Patience
Exit == IsEvent("exit") /\ running /\ running' = FALSE /\ UNCHANGED <<op, grown>>
Next == Process \/ Call \/ Exit
TraceSpec == TraceInit /\ [][Next]_<<running, op, grown, l>>
=============================================================================
