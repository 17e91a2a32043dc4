SPECIFICATION Spec
CONSTANTS NS = 3 MaxU = 1 MaxR = 1 Emit = FALSE Broken = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
