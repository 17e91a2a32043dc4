SPECIFICATION Spec
CONSTANTS Meshes = "2" Rule = "flip"
INVARIANTS Conforming Complete Disjoint Counts Euler Dual
