SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxT = 2 Join = FALSE
INVARIANT Refines
CHECK_DEADLOCK FALSE
