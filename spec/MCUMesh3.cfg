SPECIFICATION Spec
CONSTANTS Meshes = "all" Rule = "stair"
INVARIANTS Conforming Complete Disjoint Counts Euler Dual
