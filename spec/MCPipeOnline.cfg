CONSTANTS
 NP = 3
 T = 4
 Async = TRUE
 Online = TRUE
 Guarded = TRUE
SPECIFICATION Spec
INVARIANTS Complete NothingInvented
PROPERTIES Ends
