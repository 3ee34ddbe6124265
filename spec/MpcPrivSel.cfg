CONSTANTS P = 3
 N = 1
 T = 1
 Prog <- ProgSel
 Inputs = 3
 Secrets <- Bits
 Coefs <- OneLine
 Masks <- All
 Blinds <- NonZero
 Contribs <- JustTwo
 Bundle = TRUE
 Masked = TRUE
SPECIFICATION PSpec
INVARIANTS Private Uniform
CHECK_DEADLOCK FALSE
