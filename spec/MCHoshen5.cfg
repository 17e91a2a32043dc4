SPECIFICATION Spec
CONSTANTS Wd = 5 Ht = 3 Cap = 9
INVARIANTS Fits Labelled
