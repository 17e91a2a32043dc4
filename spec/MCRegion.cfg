SPECIFICATION Spec
CONSTANTS Wd = 5 Ht = 1 T = 3 Isolated = TRUE
INVARIANTS Nodes Links Follows Events
