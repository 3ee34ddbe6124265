SPECIFICATION SSpec
CONSTANTS
  MaxSent = 60
  N = {0}
  Kinds = {"send", "deliver"}
  Ops = 60
  Reduce = FALSE
  MaxBad = 0
INVARIANT Emit
CHECK_DEADLOCK FALSE
