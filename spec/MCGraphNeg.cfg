SPECIFICATION Spec
CONSTANTS N = 4 Algo = "oneway" MaxW = 0
INVARIANTS CurveInv DijkstraInv BfsInv
