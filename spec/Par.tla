-------------------------------- MODULE Par --------------------------------
(***************************************************************************)
(* Memory accesses of the threads of a parallel region between two         *)
(* barriers.  Two threads may touch the same location only if both read    *)
(* it, or both accesses are made under a lock or atomically.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences
VARIABLES rd, wr, lrd, lwr   \* locations the threads seen so far read, wrote, and read or wrote under a lock
pvars == <<rd, wr, lrd, lwr>>
Rng(s) == {s[i] : i \in 1..Len(s)}
POpen == rd' = {} /\ wr' = {} /\ lrd' = {} /\ lwr' = {}
Apart(S, T) == \A x \in S : x \notin T
PThread(r, w, lr, lw) ==
  /\ Apart(w, rd) /\ Apart(w, wr) /\ Apart(w, lrd) /\ Apart(w, lwr)
  /\ Apart(r, wr) /\ Apart(r, lwr)
  /\ Apart(lw, rd) /\ Apart(lw, wr) /\ Apart(lr, wr)
  /\ rd' = rd \cup r /\ wr' = wr \cup w /\ lrd' = lrd \cup lr /\ lwr' = lwr \cup lw
=============================================================================
