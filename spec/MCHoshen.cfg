SPECIFICATION Spec
CONSTANTS Wd = 3 Ht = 4 Cap = 7
INVARIANTS Fits Labelled
