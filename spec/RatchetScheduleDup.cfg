SPECIFICATION SSpec
CONSTANTS
  MaxSent = 4
  N = {0}
  Kinds = {"send", "deliver", "dup"}
  Ops = 9
  Reduce = TRUE
  MaxBad = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
