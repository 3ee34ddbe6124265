CONSTANTS P = 5
 N = 2
 T = 2
 Prog <- ProgOr2
 Inputs = 2
 Secrets <- Bits
 Coefs <- OneLine
 Masks <- JustTwo
 Blinds <- NonZero
 Contribs <- JustTwo
 Bundle = TRUE
SPECIFICATION LockSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
CHECK_DEADLOCK TRUE
