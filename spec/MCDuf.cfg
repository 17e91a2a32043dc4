SPECIFICATION Spec
CONSTANTS N = 4 T = 2 Unions = 2 Finds = 1 Atomic = TRUE
INVARIANTS Acyclic Partition Reps
CHECK_DEADLOCK FALSE
