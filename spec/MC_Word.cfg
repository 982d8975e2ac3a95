SPECIFICATION Spec
CONSTANT W = 4
INVARIANTS MulOK AddOK SubOK ProdOK PowOK InvOK
CHECK_DEADLOCK FALSE
