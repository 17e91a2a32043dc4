SPECIFICATION Spec
CONSTANTS
  R = 2
  NC = 2
  Wrong = FALSE
INVARIANT Laws
CHECK_DEADLOCK FALSE
