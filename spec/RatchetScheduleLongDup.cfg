SPECIFICATION SSpec
CONSTANTS
  MaxSent = 60
  N = {0}
  Kinds = {"send", "deliver", "dup"}
  Ops = 50
  Reduce = FALSE
  MaxBad = 50
INVARIANT Emit
CHECK_DEADLOCK FALSE
