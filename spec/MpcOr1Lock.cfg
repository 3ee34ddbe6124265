CONSTANTS P = 5
 N = 3
 T = 2
 Prog <- ProgOr1
 Inputs = 1
 Secrets <- Bits
 Coefs <- OneLine
 Masks <- OneThree
 Blinds <- NonZero
 Contribs <- JustTwo
 Bundle = TRUE
SPECIFICATION LockSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
CHECK_DEADLOCK TRUE
