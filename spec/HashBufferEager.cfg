SPECIFICATION Spec
CONSTANTS B = 3  N = 11  MaxEmpty = 2  Lazy = FALSE
INVARIANTS Faithful Blocks Held Result
CHECK_DEADLOCK FALSE
