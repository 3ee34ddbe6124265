CONSTANTS P = 3
 N = 2
 T = 2
 Prog <- ProgMul
 Inputs = 2
 Secrets <- All
 Coefs <- Lines
 Masks <- All
 Blinds <- JustTwo
 Contribs <- JustTwo
 Bundle = TRUE
SPECIFICATION LockSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
CHECK_DEADLOCK TRUE
