CONSTANTS P = 3
 N = 1
 T = 1
 Prog <- ProgInv2
 Inputs = 2
 Secrets <- NonZero
 Coefs <- OneLine
 Masks <- All
 Blinds <- NonZero
 Contribs <- JustTwo
 Bundle = TRUE
 Masked = TRUE
SPECIFICATION PSpec
INVARIANTS Private
CHECK_DEADLOCK FALSE
