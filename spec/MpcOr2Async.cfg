CONSTANTS P = 5
 N = 2
 T = 2
 Prog <- ProgOr2
 Inputs = 2
 Secrets <- Bits
 Coefs <- OneLine
 Masks <- JustTwo
 Blinds <- JustThree
 Contribs <- JustTwo
 Bundle = FALSE
SPECIFICATION MpcSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
PROPERTY Done
CHECK_DEADLOCK TRUE
