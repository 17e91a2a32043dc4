SPECIFICATION Spec
CONSTANTS N = 4 Turning = FALSE
INVARIANTS Conserved Order Consistent Forward SmoothKeeps
