CONSTANTS N = 3 Protocol = "nopredicate" StopAt = 9
SPECIFICATION Spec
INVARIANTS InOrder
