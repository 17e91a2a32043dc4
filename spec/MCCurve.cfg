SPECIFICATION Spec
CONSTANTS N = 4 Turning = TRUE
INVARIANTS Conserved Order Consistent Forward SmoothKeeps
