CONSTANTS P = 5
 N = 1
 T = 1
 Prog <- ProgOr3
 Inputs = 3
 Secrets <- Bits
 Coefs <- OneLine
 Masks <- JustTwo
 Blinds <- NonZero
 Contribs <- JustTwo
 Bundle = TRUE
 Masked = FALSE
SPECIFICATION PSpec
INVARIANTS Private
CHECK_DEADLOCK FALSE
