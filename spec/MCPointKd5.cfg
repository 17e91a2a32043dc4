SPECIFICATION Spec
INVARIANT Correct
CONSTANTS
 Kind = "kd"
 NP = 5
 Side = 2
 Wrong = FALSE
