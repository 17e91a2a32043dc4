SPECIFICATION Spec
INVARIANT Same
INVARIANT Again
CONSTANTS
 Keys = {0, 1}
 MaxPts = 2
 MaxCurves = 2
 Wrong = FALSE
