------------------------------ MODULE History -------------------------------
(***************************************************************************)
(* A process whose operations build a table when first used at a size and *)
(* keep it, and whose randomised operations draw from one generator.       *)
(* Whatever was called before, a call's result is F of its arguments (and, *)
(* for a randomised operation, of the seed given just before it).          *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS Size, Arg, Seed,
          Shared,       \* one table serves every size
          Consumed,     \* using a table alters it
          FromArg,      \* a table is built with the first argument
          DrawsToBuild, \* building a table draws random numbers
          Scratch       \* a result starts from what the last call left behind
VARIABLES table, gen, left, last
hvars == <<table, gen, left, last>>
None == [none |-> TRUE]
\* a table of a size, usable any number of times; tables and results are compared, never computed with
Table(z) == [none |-> FALSE, size |-> z, used |-> 0, by |-> 0]
F(z, a, tb, g, junk) == <<z, a, tb.size, tb.used, tb.by, g, junk>>
Slot(z) == IF Shared THEN 0 ELSE z
HInit == /\ table = [z \in Size \union {0} |-> None] /\ gen = 0 /\ left = 0
         /\ last = [op |-> "none", z |-> 0, a |-> 0, s |-> 0, out |-> <<>>]
\* a call: op "det" or "rand"
HCall(op, z, a, s) ==
  LET fresh == table[Slot(z)].none
      t0 == IF fresh THEN [Table(z) EXCEPT !.by = IF FromArg THEN a ELSE 0] ELSE table[Slot(z)]
      g0 == IF fresh /\ DrawsToBuild THEN s + 1 ELSE s
      out == F(z, a, t0, IF op = "rand" THEN g0 ELSE 0, IF Scratch THEN left ELSE 0)
  IN /\ table' = [table EXCEPT ![Slot(z)] = [t0 EXCEPT !.used = IF Consumed THEN 1 ELSE 0]]
     /\ gen' = g0 /\ left' = a
     /\ last' = [op |-> op, z |-> z, a |-> a, s |-> s, out |-> out]
FirstCall(r) == F(r.z, r.a, Table(r.z), IF r.op = "rand" THEN r.s ELSE 0, 0)
HistoryFree == last.op # "none" => last.out = FirstCall(last)
=============================================================================
