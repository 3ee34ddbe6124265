SPECIFICATION SSpec
CONSTANTS
  MaxSent = 60
  N = {0, 1, 2, 3, 4, 5000, 2147483647}
  Kinds = {"send", "deliver", "forge"}
  Ops = 40
  Reduce = FALSE
  MaxBad = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
