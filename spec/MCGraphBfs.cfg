SPECIFICATION Spec
CONSTANTS N = 5 Algo = "bfs" MaxW = 0
INVARIANTS CurveInv DijkstraInv BfsInv
