SPECIFICATION Spec
INVARIANT Same
INVARIANT Laws
CONSTANTS
 MaxNd = 3
 MaxSize = 2
 MaxLen = 12
 MaxOps = 1
 Wrong = TRUE
