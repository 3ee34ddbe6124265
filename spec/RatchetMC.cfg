SPECIFICATION Spec
CONSTANTS
  MaxSent = 4
  N = {0, 1, 2, 3, 7}
  Adversary = TRUE
INVARIANTS EveryMessageDecrypts NoReplay NoForgeryN KeysUsedOnce FreshKeysMixedIn HeadersTruthful
CHECK_DEADLOCK FALSE
