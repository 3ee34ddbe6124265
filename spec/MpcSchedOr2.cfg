CONSTANTS P = 5
 N = 3
 T = 2
 Prog <- ProgOr2
 Inputs = 2
 Secrets <- One
 Coefs <- OneLine
 Masks <- JustTwo
 Blinds <- JustTwo
 Contribs <- JustTwo
 Bundle = FALSE
SPECIFICATION SSpec
INVARIANT Emit
CHECK_DEADLOCK FALSE
