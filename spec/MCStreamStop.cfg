CONSTANTS N = 5 Protocol = "slot" StopAt = 3
SPECIFICATION Spec
INVARIANTS InOrder Complete
PROPERTY Terminates
