CONSTANTS MaxN = 14 Ks = {1, 3, 5, 7, 9} Flush = "all"
SPECIFICATION Spec
INVARIANTS Values All
