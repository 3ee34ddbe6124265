CONSTANTS P = 5
 N = 1
 T = 1
 Prog <- ProgInv
 Inputs = 1
 Secrets <- NonZero
 Coefs <- OneLine
 Masks <- All
 Blinds <- NonZero
 Contribs <- JustTwo
 Bundle = TRUE
 Masked = TRUE
SPECIFICATION PSpec
INVARIANTS Private
CHECK_DEADLOCK FALSE
