SPECIFICATION Spec
CONSTANTS Wd = 3 Ht = 3 Cap = 5
INVARIANTS Fits Labelled
