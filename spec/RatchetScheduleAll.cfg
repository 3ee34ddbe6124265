SPECIFICATION SSpec
CONSTANTS
  MaxSent = 6
  N = {0}
  Kinds = {"send", "deliver"}
  Ops = 11
  Reduce = TRUE
  MaxBad = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
