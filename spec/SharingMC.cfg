CONSTANTS P = 5
 N = 4
 T = 3
SPECIFICATION Spec
INVARIANTS Correct Secrecy Linear
CHECK_DEADLOCK FALSE
