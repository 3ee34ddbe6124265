SPECIFICATION SSpec
CONSTANTS
  MaxSent = 7
  N = {0}
  Kinds = {"send", "deliver"}
  Ops = 13
  Reduce = TRUE
  MaxBad = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
