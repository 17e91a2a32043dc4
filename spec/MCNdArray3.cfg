SPECIFICATION Spec
INVARIANT Same
INVARIANT Laws
CONSTANTS
 MaxNd = 3
 MaxSize = 3
 MaxLen = 18
 MaxOps = 2
 Wrong = FALSE
