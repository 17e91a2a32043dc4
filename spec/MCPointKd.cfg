SPECIFICATION Spec
INVARIANT Correct
CONSTANTS
 Kind = "kd"
 NP = 4
 Side = 2
 Wrong = FALSE
