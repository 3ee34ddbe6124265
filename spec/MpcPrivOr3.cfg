CONSTANTS P = 3
 N = 1
 T = 1
 Prog <- ProgOr1
 Inputs = 1
 Secrets <- Bits
 Coefs <- OneLine
 Masks <- All
 Blinds <- NonZero
 Contribs <- JustTwo
 Bundle = TRUE
 Masked = TRUE
SPECIFICATION PSpec
INVARIANTS Private
CHECK_DEADLOCK FALSE
