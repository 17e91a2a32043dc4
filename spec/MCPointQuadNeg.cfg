SPECIFICATION Spec
INVARIANT Correct
CONSTANTS
 Kind = "quad"
 NP = 2
 Side = 1
 Wrong = TRUE
