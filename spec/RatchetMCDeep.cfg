SPECIFICATION Spec
CONSTANTS
  MaxSent = 6
  N = {0, 1, 2, 7}
  Adversary = TRUE
INVARIANTS EveryMessageDecrypts NoReplay NoForgeryN KeysUsedOnce FreshKeysMixedIn HeadersTruthful
CHECK_DEADLOCK FALSE
