SPECIFICATION Spec
CONSTANTS Meshes = "2" Rule = "stair"
INVARIANTS Conforming Complete Disjoint Counts Euler Dual
