-------------------------------- MODULE BigNat --------------------------------
(* Natural numbers of any size as sequences of limbs, least significant       *)
(* first, base 1024, no leading zero limbs (zero is the empty sequence).      *)
(* spec/java/BigNat.java evaluates Add, Sub, Mul and DivMod natively when it  *)
(* is on TLC's class path; BigNatCheck compares it with the definitions here. *)
EXTENDS Integers, Sequences, SequencesExt, TLC
LOCAL B == 1024
LOCAL Zs(n) == [i \in 1..n |-> 0]
LOCAL Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
LOCAL Larger(x, y) == IF x > y THEN x ELSE y

RECURSIVE Norm(_)
Norm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE FromNat(_)
FromNat(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o FromNat(n \div B)
IsNum(a) == (\A i \in DOMAIN a : a[i] \in 0..(B - 1)) /\ (a = <<>> \/ a[Len(a)] # 0)

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i - 1)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE CmpAt(a, b, Len(a))
Lt(a, b) == Cmp(a, b) < 0

(* the fold's accumulator is <<limbs so far, carry>> *)
Add(a, b) ==
  LET r == FoldLeftDomain(LAMBDA acc, i : LET s == Limb(a, i) + Limb(b, i) + acc[2]
                                          IN  <<Append(acc[1], s % B), s \div B>>,
                          << <<>>, 0 >>, Zs(Larger(Len(a), Len(b))))
  IN  Norm(Append(r[1], r[2]))
Sub(a, b) ==                                     \* for a >= b
  LET r == FoldLeftDomain(LAMBDA acc, i : LET s == Limb(a, i) - Limb(b, i) - acc[2]
                                          IN  <<Append(acc[1], s % B), IF s < 0 THEN 1 ELSE 0>>,
                          << <<>>, 0 >>, Zs(Len(a)))
  IN  Norm(r[1])
LOCAL MulLimb(a, x) ==
  LET r == FoldLeftDomain(LAMBDA acc, i : LET s == a[i] * x + acc[2]
                                          IN  <<Append(acc[1], s % B), s \div B>>,
                          << <<>>, 0 >>, Zs(Len(a)))
  IN  Norm(Append(r[1], r[2]))
Mul(a, b) == FoldLeftDomain(LAMBDA acc, i : Add(acc, IF b[i] = 0 THEN <<>> ELSE Norm(Zs(i - 1) \o MulLimb(a, b[i]))),
                            <<>>, Zs(Len(b)))
Bit(a, i) == (a[(i \div 10) + 1] \div 2^(i % 10)) % 2       \* i from 0
BitLen(a) == IF a = <<>> THEN 0
             ELSE 10 * (Len(a) - 1) + (CHOOSE k \in 1..10 : a[Len(a)] < 2^k /\ a[Len(a)] >= 2^(k-1))
(* long division, bit by bit: the accumulator is <<quotient, remainder>> *)
DivMod(a, b) ==
  LET n == BitLen(a) IN
  FoldLeftDomain(LAMBDA acc, i :
      LET r  == Add(Add(acc[2], acc[2]), FromNat(Bit(a, n - i)))
          q  == Add(acc[1], acc[1])
      IN  IF Lt(r, b) THEN <<q, r>> ELSE <<Add(q, <<1>>), Sub(r, b)>>,
    << <<>>, <<>> >>, Zs(n))
------------------------------------------------------------------------------
Mod(a, m) == DivMod(a, m)[2]
Div(a, m) == DivMod(a, m)[1]
(* left to right over the bits of the exponent *)
PowMod(a, e, m) ==
  LET n == BitLen(e)
      x == TLCEval(Mod(a, m))
  IN  FoldLeftDomain(LAMBDA acc, i :
          LET s == TLCEval(Mod(Mul(acc, acc), m))
          IN  IF Bit(e, n - i) = 1 THEN TLCEval(Mod(Mul(s, x), m)) ELSE s,
        Mod(<<1>>, m), Zs(n))
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN <<1>> ELSE IF n % 2 = 1 THEN Mul(a, Pow(a, n - 1))
             ELSE LET h == TLCEval(Pow(a, n \div 2)) IN Mul(h, h)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = <<>> THEN a ELSE Gcd(b, TLCEval(Mod(a, b)))
(* from digits, most significant first *)
FromDigits(ds, radix) == FoldLeft(LAMBDA acc, d : TLCEval(Add(Mul(acc, FromNat(radix)), FromNat(d))), <<>>, ds)
FromBytesBE(bs) == FromDigits(bs, 256)
FromBytesLE(bs) == FromDigits(Reverse(bs), 256)
RECURSIVE BytesLE(_)
BytesLE(a) == IF a = <<>> THEN <<>>
              ELSE LET d == TLCEval(DivMod(a, FromNat(256)))
                   IN  << (IF d[2] = <<>> THEN 0 ELSE d[2][1]) >> \o BytesLE(d[1])
==============================================================================
