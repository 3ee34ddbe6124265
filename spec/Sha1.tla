-------------------------------- MODULE Sha1 --------------------------------
(* FIPS 180, SHA-1.  Same shape as module Md5.                                *)
EXTENDS Words

Sha1Init == << <<8961,26437>>, <<43913,61389>>, <<56574,39098>>, <<21622,4146>>, <<57840,50130>> >>

LOCAL F(i, b, c, d) ==
  CASE i < 20 -> WXor(WAnd(b, c), WAnd(WNot(b), d))
    [] i < 40 -> WXor(WXor(b, c), d)
    [] i < 60 -> WXor(WXor(WAnd(b, c), WAnd(b, d)), WAnd(c, d))
    [] OTHER  -> WXor(WXor(b, c), d)
LOCAL K(i) == CASE i < 20 -> <<31129,23170>> [] i < 40 -> <<60321,28377>>
                [] i < 60 -> <<48348,36635>> [] OTHER -> <<49622,51810>>

(* st = <<a, b, c, d, e, W>> with W the sixteen latest schedule words *)
LOCAL Step(st, i) ==
  LET a == st[1]  b == st[2]  c == st[3]  d == st[4]  e == st[5]  W == st[6]
      w == IF i < 16 THEN W[i+1]
           ELSE WRotL(WXor(WXor(W[14], W[9]), WXor(W[3], W[1])), 1)
      t == WAdd(WAdd(WAdd(WRotL(a, 5), F(i, b, c, d)), WAdd(e, w)), K(i))
  IN  <<t, a, WRotL(b, 30), c, d, IF i < 16 THEN W ELSE Append(Tail(W), w)>>

Sha1Compress(h, data, k) ==
  LET W == TLCEval([i \in 1..16 |-> WFromBE(data, k + 4*(i-1))])
      r == FoldLeftDomain(LAMBDA st, i : Step(st, i-1),
                          <<h[1], h[2], h[3], h[4], h[5], W>>, Zeros(80))
  IN  <<WAdd(h[1], r[1]), WAdd(h[2], r[2]), WAdd(h[3], r[3]), WAdd(h[4], r[4]), WAdd(h[5], r[5])>>

Sha1Bytes(h) == WToBE(h[1]) \o WToBE(h[2]) \o WToBE(h[3]) \o WToBE(h[4]) \o WToBE(h[5])

(* padding as in MD5 but with the length in big-endian byte order *)
Sha1Pad(total, tail) ==
  LET n    == Len(tail)
      z    == (119 - (n % 64)) % 64
      bits == CtrBits(CtrAdd(total, n))
  IN  tail \o <<128>> \o Zeros(z) \o Reverse(DToLE(<<bits[1], bits[2], bits[3], bits[4]>>))

Sha1Finish(h, total, tail) ==
  LET p == TLCEval(Sha1Pad(total, tail))
  IN  Sha1Bytes(FoldLeftDomain(LAMBDA acc, i : Sha1Compress(acc, p, 64*(i-1)), h, Zeros(Len(p) \div 64)))

Sha1(msg) == Sha1Finish(Sha1Init, CtrZero(4), msg)
Sha1FromBytes(s) == [i \in 1..5 |-> WFromBE(s, 4*(i-1))]
==============================================================================
