CONSTANTS P = 5
 N = 4
 T = 3
 Prog <- ProgMulMul
 Inputs = 2
 Secrets <- All
 Coefs <- Curves
 Masks <- JustTwo
 Blinds <- JustTwo
 Contribs <- JustTwo
 Bundle = TRUE
SPECIFICATION LockSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
CHECK_DEADLOCK TRUE
