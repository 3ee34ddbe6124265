CONSTANTS P = 3
 N = 1
 T = 1
 Prog <- ProgMulMul
 Inputs = 2
 Secrets <- All
 Coefs <- OneLine
 Masks <- All
 Blinds <- NonZero
 Contribs <- JustTwo
 Bundle = TRUE
 Masked = TRUE
SPECIFICATION PSpec
INVARIANTS Private Uniform
CHECK_DEADLOCK FALSE
