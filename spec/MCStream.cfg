CONSTANTS N = 5 Protocol = "slot" StopAt = 9
SPECIFICATION Spec
INVARIANTS InOrder Complete
PROPERTY Terminates
