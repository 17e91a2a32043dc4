SPECIFICATION Spec
CONSTANTS Vals <- Vals9
 Plain = TRUE
INVARIANTS Diagonal
