SPECIFICATION Spec
CONSTANTS N = 4 Algo = "dijkstra" MaxW = 2
INVARIANTS CurveInv DijkstraInv BfsInv
