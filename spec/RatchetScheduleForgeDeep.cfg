SPECIFICATION SSpec
CONSTANTS
  MaxSent = 4
  N = {0, 1}
  Kinds = {"send", "deliver", "forge"}
  Ops = 7
  Reduce = TRUE
  MaxBad = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
