CONSTANTS P = 5
 N = 3
 T = 2
 Prog <- ProgMul2
 Inputs = 2
 Secrets <- All
 Coefs <- SomeLines
 Masks <- OneThree
 Blinds <- JustTwo
 Contribs <- JustTwo
 Bundle = TRUE
SPECIFICATION LockSpec
INVARIANTS InStep Consistent Correct Fresh NoLeftovers
CHECK_DEADLOCK TRUE
