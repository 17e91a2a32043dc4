SPECIFICATION Spec
INVARIANT InOut
CONSTANTS D = 3
 Base = 3000
 Stride = 4783
 From = 17
CHECK_DEADLOCK FALSE
