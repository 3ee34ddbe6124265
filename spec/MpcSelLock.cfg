CONSTANTS P = 5
 N = 3
 T = 2
 Prog <- ProgSel
 Inputs = 3
 Secrets <- Bits
 Coefs <- SomeLines
 Masks <- OneThree
 Blinds <- JustTwo
 Contribs <- JustTwo
 Bundle = TRUE
SPECIFICATION LockSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
CHECK_DEADLOCK TRUE
