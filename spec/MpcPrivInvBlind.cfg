CONSTANTS P = 5
 N = 1
 T = 1
 Prog <- ProgInv2
 Inputs = 2
 Secrets <- NonZero
 Coefs <- OneLine
 Masks <- JustTwo
 Blinds <- NonZero
 Contribs <- JustTwo
 Bundle = TRUE
 Masked = FALSE
SPECIFICATION PSpec
INVARIANTS Private
CHECK_DEADLOCK FALSE
