CONSTANTS N = 3 Protocol = "overwrite" StopAt = 9
SPECIFICATION Spec
INVARIANTS InOrder
