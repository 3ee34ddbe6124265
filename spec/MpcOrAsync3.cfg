CONSTANTS P = 5
 N = 3
 T = 2
 Prog <- ProgOr2
 Inputs = 2
 Secrets <- Bits
 Coefs <- OneLine
 Masks <- JustTwo
 Blinds <- JustThree
 Contribs <- JustTwo
 Bundle = TRUE
SPECIFICATION MpcSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
PROPERTY Done
CHECK_DEADLOCK TRUE
