CONSTANTS T = 2 Twist = TRUE Every = FALSE Dims <- D22
SPECIFICATION Spec
INVARIANTS CellOk Watertight
