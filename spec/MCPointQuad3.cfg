SPECIFICATION Spec
INVARIANT Correct
CONSTANTS
 Kind = "quad"
 NP = 3
 Side = 2
 Wrong = FALSE
