SPECIFICATION Spec
INVARIANTS TilesInv GhostInv
CHECK_DEADLOCK FALSE
