SPECIFICATION Spec
CONSTANTS
  R = 1
  NC = 1
  Wrong = FALSE
INVARIANT Laws
CHECK_DEADLOCK FALSE
