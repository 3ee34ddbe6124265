CONSTANTS P = 5
 N = 2
 T = 2
 Prog <- ProgLost
 Inputs = 1
 Secrets <- JustThree
 Coefs <- OneLine
 Masks <- JustTwo
 Blinds <- JustThree
 Contribs <- JustTwo
 Bundle = TRUE
SPECIFICATION MpcSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
PROPERTY Done
CHECK_DEADLOCK TRUE
