SPECIFICATION SSpec
CONSTANTS
  MaxSent = 5
  N = {0}
  Kinds = {"send", "deliver", "dup"}
  Ops = 10
  Reduce = TRUE
  MaxBad = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
