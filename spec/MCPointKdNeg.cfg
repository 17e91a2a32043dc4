SPECIFICATION Spec
INVARIANT Correct
CONSTANTS
 Kind = "kd"
 NP = 3
 Side = 2
 Wrong = TRUE
