SPECIFICATION Spec
INVARIANT Correct
CONSTANTS
 Kind = "quad"
 NP = 2
 Side = 2
 Wrong = FALSE
