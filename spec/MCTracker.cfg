SPECIFICATION Spec
CONSTANTS NS = 3 MaxU = 1 MaxR = 1 Emit = TRUE Broken = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
