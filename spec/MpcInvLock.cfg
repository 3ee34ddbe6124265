CONSTANTS P = 5
 N = 3
 T = 2
 Prog <- ProgInv
 Inputs = 1
 Secrets <- NonZero
 Coefs <- SomeLines
 Masks <- All
 Blinds <- NonZero
 Contribs <- JustTwo
 Bundle = TRUE
SPECIFICATION LockSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
CHECK_DEADLOCK TRUE
