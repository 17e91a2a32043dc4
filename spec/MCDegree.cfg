SPECIFICATION Spec
CONSTANTS Vals <- Vals9
 Plain = FALSE
INVARIANTS Diagonal Rotate Bounded
