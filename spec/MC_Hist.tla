------------------------------ MODULE MC_Hist -------------------------------
EXTENDS History
Next == \E op \in {"det", "rand"}, z \in Size, a \in Arg, s \in Seed : HCall(op, z, a, s)
Spec == HInit /\ [][Next]_hvars
=============================================================================
