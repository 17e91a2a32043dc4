SPECIFICATION Spec
CONSTANTS NS = 7 MaxU = 2 MaxR = 1 Emit = FALSE Broken = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
VIEW V
