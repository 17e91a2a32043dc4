CONSTANTS
 NP = 2
 T = 3
 Async = TRUE
 Online = FALSE
 Guarded = FALSE
SPECIFICATION Spec
INVARIANTS Complete NothingInvented
PROPERTIES Ends
