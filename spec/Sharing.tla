------------------------------- MODULE Sharing --------------------------------
(* Shamir sharings over the integers modulo p, held by the parties 1..n.      *)
(* The arithmetic is a parameter: machine integers for the models of the      *)
(* protocols, numbers of any size for traces of the code.                     *)
(*                                                                            *)
(* Shares y[1..n] lie on a polynomial of degree below t exactly if all their  *)
(* t-th differences vanish (p > n), and the secret is the value that extends  *)
(* the shares to the point 0 in the same way.  No division is needed.         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Zero, Plus(_, _, _), Minus(_, _, _), Times(_, _, _), Num(_, _)

RECURSIVE Diffs(_, _, _)                         \* the k-th differences of s
Diffs(p, s, k) == IF k = 0 THEN s
                  ELSE Diffs(p, TLCEval([i \in 1..(Len(s) - 1) |-> Minus(p, s[i + 1], s[i])]), k - 1)
OnPolynomial(p, t, s) == Len(s) > t => LET d == TLCEval(Diffs(p, s, t)) IN \A i \in DOMAIN d : d[i] = Zero
IsSharingOf(p, t, v, ys) == OnPolynomial(p, t, <<v>> \o ys)
(* the value at 0 of the polynomial through the first t shares: the t-th      *)
(* difference of <<v, y1, ..., yt>> is linear in v with factor 1 or -1        *)
Secret(p, t, ys) ==
  LET d == Diffs(p, <<Zero>> \o SubSeq(ys, 1, t), t)[1]
  IN  IF t % 2 = 0 THEN Minus(p, Zero, d) ELSE d
Value(p, coeffs, x) == FoldRight(LAMBDA c, acc : Plus(p, Times(p, acc, Num(p, x)), c), coeffs, Zero)
ShareOut(p, coeffs, n) == [x \in 1..n |-> Value(p, coeffs, x)]
==============================================================================
