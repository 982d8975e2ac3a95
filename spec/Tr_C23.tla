------------------------------- MODULE Tr_C23 -------------------------------
(***************************************************************************)
(* What a process may return: for every operation and argument (and seed,  *)
(* for the randomised ones) one result, in every process and history.      *)
(* "process" starts a history; its tables and generator are forgotten,     *)
(* results seen in others are not.                                         *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES seen,     \* results known, by operation, argument and seed
          open      \* a history is running
TraceInit == l = 1 /\ seen = [k \in {} |-> ""] /\ open = FALSE
Key == IF Ev.rnd THEN Ev.op \o "|" \o Ev.arg \o "|" \o ToString(Ev.seed) ELSE Ev.op \o "|" \o Ev.arg
Process == IsEvent("process") /\ open' = TRUE /\ UNCHANGED seen
Call == /\ IsEvent("call") /\ open /\ Ev.same
        /\ \E k \in {Key} : IF k \in DOMAIN seen THEN seen[k] = Ev.out /\ UNCHANGED seen ELSE seen' = seen @@ (k :> Ev.out)
        /\ UNCHANGED open
Exit == IsEvent("exit") /\ open /\ open' = FALSE /\ UNCHANGED seen
Next == Process \/ Call \/ Exit
TraceSpec == TraceInit /\ [][Next]_<<seen, open, l>>
=============================================================================
