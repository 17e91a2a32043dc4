SPECIFICATION Spec
CONSTANTS MaxN = 5 MaxT = 4 Join = TRUE
INVARIANT Refines
PROPERTY Returns
CHECK_DEADLOCK FALSE
