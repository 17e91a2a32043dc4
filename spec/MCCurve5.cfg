SPECIFICATION Spec
CONSTANTS N = 5 Turning = TRUE
INVARIANTS Conserved Order Consistent Forward SmoothKeeps
