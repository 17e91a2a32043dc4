SPECIFICATION Spec
CONSTANTS N = 5 Algo = "curve" MaxW = 0
INVARIANTS CurveInv DijkstraInv BfsInv
