CONSTANTS P = 5
 N = 2
 T = 2
 Prog <- ProgInv2
 Inputs = 2
 Secrets <- NonZero
 Coefs <- OneLine
 Masks <- OneThree
 Blinds <- NonZero
 Contribs <- JustTwo
 Bundle = TRUE
SPECIFICATION LockSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
CHECK_DEADLOCK TRUE
