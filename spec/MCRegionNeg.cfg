SPECIFICATION Spec
CONSTANTS Wd = 5 Ht = 1 T = 3 Isolated = FALSE
INVARIANTS Nodes Links Follows Events
