CONSTANTS MaxN = 6 Ks = {1, 3, 5} Flush = "half"
SPECIFICATION Spec
INVARIANTS Values All
