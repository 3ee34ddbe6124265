CONSTANTS P = 5
 N = 3
 T = 2
 Prog <- ProgMul
 Inputs = 2
 Secrets <- JustThree
 Coefs <- OneLine
 Masks <- OneThree
 Blinds <- JustTwo
 Contribs <- JustTwo
 Bundle = FALSE
SPECIFICATION MpcSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
PROPERTY Done
CHECK_DEADLOCK TRUE
