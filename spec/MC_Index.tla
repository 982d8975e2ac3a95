------------------------------ MODULE MC_Index ------------------------------
(***************************************************************************)
(* Every loop family at every parameter up to the bounds: all indices in   *)
(* range, all results written, the index maps that must be permutations    *)
(* permutations.  One state per family and parameters.                     *)
(***************************************************************************)
EXTENDS Index
CONSTANTS MaxK,          \* bits of numbers
          MaxG           \* log2 of degrees
VARIABLES fam, x, y, z
vars == <<fam, x, y, z>>
Fam(f, X, Y, Z) == fam = f /\ x \in X /\ y \in Y /\ z \in Z
One == {0}
Init == \/ Fam("down", 1..MaxK, 1..MaxK, One) /\ x >= y
        \/ Fam("up", 1..MaxK, 1..MaxK, One) /\ x <= y
        \/ Fam("resize", 1..MaxK, 1..MaxK, One)
        \/ Fam("mulw", 1..MaxK, One, One) \/ Fam("mul", 1..MaxK, One, One)
        \/ Fam("fr", 1..MaxK, 0..MaxK, One) /\ y <= x
        \/ Fam("to", 1..(IF MaxK < 28 THEN MaxK ELSE 28), One, One)
        \/ Fam("icrt", 1..MaxK, 1..4, One)
        \/ \E g \in 1..MaxG : \/ Fam("ntt", {g}, One, One) \/ Fam("intt", {g}, One, One) \/ Fam("tables", {g}, One, One)
                              \/ Fam("rot", {g}, 0..(2 * Pow2(g) + 1), One) \/ Fam("rot1", {g}, One, One) \/ Fam("conj", {g}, One, One)
        \/ \E g \in 2..MaxG : \/ Fam("order", {g}, One, One)
                              \/ Fam("apply", {Pow2(g - 1)}, 0..(Pow2(g - 1) - 1), One)
                              \/ Fam("transpose", {Pow2(g - 1)}, 1..(Pow2(g - 1) - 1), One)
                              \/ Fam("matmul", {Pow2(g - 1)}, 0..(Pow2(g - 1) - 1), One)
                              \/ Fam("split", {g}, 0..(g - 2), One)
                              \/ Fam("fold", {Pow2(g - 1)}, One, One)
        \/ Fam("fill", {4}, SUBSET (0..3) \ {{}}, SUBSET (0..3) \ {{}})
        \/ Fam("groups", 1..12, 1..4, One) /\ x % y = 0
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Acc == CASE fam = "down" -> ShiftRight(x, y)   [] fam = "up" -> ShiftLeft(x, y)       [] fam = "resize" -> Resize(x, y)
         [] fam = "mulw" -> MulWord(x)         [] fam = "mul" -> MulWhole(x)          [] fam = "fr" -> FromText(x, y)
         [] fam = "to" -> ToText(x, Digits(Pow2(x) - 1))                              [] fam = "icrt" -> Residues(x, y)
         [] fam = "ntt" -> Ntt(x)              [] fam = "intt" -> Intt(x)             [] fam = "tables" -> Tables(x)
         [] fam = "rot" -> RotKey(x, y)        [] fam = "rot1" -> RotOne(x)           [] fam = "conj" -> Conj(x)
         [] fam = "order" -> Order(x)          [] fam = "apply" -> Apply(x, y)        [] fam = "transpose" -> Transpose(x, y)
         [] fam = "matmul" -> MatMulVec(x, y)  [] fam = "split" -> Split(x, y)        [] fam = "fold" -> Fold(x)
         [] fam = "fill" -> Fill(x, y, z)      [] fam = "groups" -> Groups(x, y)
Outs == CASE fam \in {"down", "up", "resize"} -> {"B"} [] fam \in {"mulw", "fr"} -> {"data"} [] fam = "mul" -> {"ABi"} [] fam = "to" -> {}
          [] fam = "icrt" -> {"rns"} [] fam \in {"ntt", "intt"} -> {"a"} [] fam = "tables" -> {"psi"}
          [] fam \in {"rot", "rot1", "conj", "order", "apply"} -> {"out"} [] fam = "transpose" -> {"temp"} [] fam = "matmul" -> {"C"}
          [] fam = "split" -> {"row", "col", "diag"} [] fam = "fold" -> {} [] fam = "fill" -> {} [] fam = "groups" -> {"B"}
InRange  == Safe(Acc)
Complete == IF fam = "split" THEN {a.i : a \in {b \in Acc : b.a = "row"}} = 0..(Pow2(x - 1) - 1) ELSE Whole(Acc, Outs)
\* the forward and inverse butterflies of a level touch every element exactly once: as many pairs as half the degree
Pairs == fam \in {"ntt"} => \A s \in 0..(x - 1) : LET B == Butterfly(Pow2(x), Pow2(s), Pow2(x) \div Pow2(s + 1), "psi")
                                                   IN Cardinality({b \in B : b.a = "a"}) = Pow2(x) /\ Cardinality({b \in B : b.a = "psi"}) = Pow2(s)
=============================================================================
