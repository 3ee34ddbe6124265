SPECIFICATION SSpec
CONSTANTS
  MaxSent = 4
  N = {0, 1}
  Kinds = {"send", "deliver", "forge"}
  Ops = 6
  Reduce = TRUE
  MaxBad = 1
INVARIANT Emit
CHECK_DEADLOCK FALSE
