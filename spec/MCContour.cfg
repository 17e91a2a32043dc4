CONSTANTS T = 2 Twist = FALSE Every = TRUE Dims <- D22
SPECIFICATION Spec
INVARIANTS CellOk Watertight
