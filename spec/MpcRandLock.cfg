CONSTANTS P = 3
 N = 2
 T = 2
 Prog <- ProgRand
 Inputs = 0
 Secrets <- All
 Coefs <- Lines
 Masks <- JustTwo
 Blinds <- JustTwo
 Contribs <- All
 Bundle = TRUE
SPECIFICATION LockSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
CHECK_DEADLOCK TRUE
