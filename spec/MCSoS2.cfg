SPECIFICATION Spec
INVARIANT InOut
CONSTANTS D = 2
 Base = 6560
 Stride = 1
 From = 0
CHECK_DEADLOCK FALSE
