CONSTANTS P = 7
 N = 5
 T = 2
SPECIFICATION Spec
INVARIANTS Correct Secrecy Linear
CHECK_DEADLOCK FALSE
