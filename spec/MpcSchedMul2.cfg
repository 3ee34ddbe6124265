CONSTANTS P = 5
 N = 2
 T = 2
 Prog <- ProgMul2
 Inputs = 2
 Secrets <- JustTwo
 Coefs <- OneLine
 Masks <- JustTwo
 Blinds <- JustTwo
 Contribs <- JustTwo
 Bundle = FALSE
SPECIFICATION SSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
