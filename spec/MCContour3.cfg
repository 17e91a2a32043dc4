CONSTANTS T = 2 Twist = FALSE Every = FALSE Dims <- D222
SPECIFICATION Spec
INVARIANTS CellOk Watertight
