CONSTANTS P = 5
 N = 3
 T = 2
 Prog <- ProgRand
 Inputs = 0
 Secrets <- JustTwo
 Coefs <- OneLine
 Masks <- JustTwo
 Blinds <- JustTwo
 Contribs <- OneThree
 Bundle = FALSE
SPECIFICATION MpcSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
PROPERTY Done
CHECK_DEADLOCK TRUE
