CONSTANTS T = 2 Twist = FALSE Every = FALSE Dims <- D32
SPECIFICATION Spec
INVARIANTS CellOk Watertight
