SPECIFICATION Spec
CONSTANTS N = 5 T = 1 Unions = 4 Finds = 2 Atomic = TRUE
INVARIANTS Acyclic Partition Reps
CHECK_DEADLOCK FALSE
