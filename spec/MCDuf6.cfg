SPECIFICATION Spec
CONSTANTS N = 6 T = 2 Unions = 3 Finds = 1 Atomic = TRUE
INVARIANTS Acyclic Partition Reps
CHECK_DEADLOCK FALSE
