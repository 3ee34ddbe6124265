CONSTANTS P = 7
 N = 3
 T = 2
 Prog <- ProgOr3
 Inputs = 3
 Secrets <- Bits
 Coefs <- OneLine
 Masks <- JustThree
 Blinds <- OneTwo
 Contribs <- JustTwo
 Bundle = TRUE
SPECIFICATION LockSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
CHECK_DEADLOCK TRUE
