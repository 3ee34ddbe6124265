SPECIFICATION Spec
CONSTANTS
  Ids = {1, 2, 3}
  Algs = {"md5", "sha1", "blake2b", "blake2s"}
  Lens = {0, 1, 3, 55, 56, 57, 63, 64, 65, 127, 128, 129, 130, 192, 256, 257}
  Ops = 24
  MaxTotal = 700
INVARIANT Emit
CHECK_DEADLOCK FALSE
