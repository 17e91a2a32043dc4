SPECIFICATION Spec
CONSTANTS
  R = 1
  NC = 1
  Wrong = TRUE
INVARIANT Laws
CHECK_DEADLOCK FALSE
