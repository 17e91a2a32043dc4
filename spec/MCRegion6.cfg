SPECIFICATION Spec
CONSTANTS Wd = 2 Ht = 3 T = 3 Isolated = TRUE
INVARIANTS Nodes Links Follows Events
