SPECIFICATION Spec
CONSTANTS N = 3 T = 2 Unions = 1 Finds = 0 Atomic = FALSE
INVARIANTS Partition
CHECK_DEADLOCK FALSE
