-------------------------------- MODULE Md5 ---------------------------------
(* RFC 1321.  A digest is computed from a chaining value h, the number of     *)
(* bytes that were compressed to reach it (a counter), and the bytes that     *)
(* remain; the digest of a message starts from the initial value and zero.    *)
EXTENDS Words

LOCAL K == <<
  <<42104,55146>>, <<46934,59591>>, <<28891,9248>>, <<52974,49597>>,
  <<4015,62844>>, <<50730,18311>>, <<17939,43056>>, <<38145,64838>>,
  <<39128,27008>>, <<63407,35652>>, <<23473,65535>>, <<55230,35164>>,
  <<4386,27536>>, <<29075,64920>>, <<17294,42617>>, <<2081,18868>>,
  <<9570,63006>>, <<45888,49216>>, <<23121,9822>>, <<51114,59830>>,
  <<4189,54831>>, <<5203,580>>, <<59009,55457>>, <<64456,59347>>,
  <<52710,8673>>, <<2006,49975>>, <<3463,62677>>, <<5357,17754>>,
  <<59653,43491>>, <<41976,64751>>, <<729,26479>>, <<19594,36138>>,
  <<14658,65530>>, <<63105,34673>>, <<24866,28061>>, <<14348,64997>>,
  <<59972,42174>>, <<53161,19422>>, <<19296,63163>>, <<48240,48831>>,
  <<32454,10395>>, <<10234,60065>>, <<12421,54511>>, <<7429,1160>>,
  <<53305,55764>>, <<39397,59099>>, <<31992,8098>>, <<22117,50348>>,
  <<8772,62505>>, <<65431,17194>>, <<9127,43924>>, <<41017,64659>>,
  <<22979,25947>>, <<52370,36620>>, <<62589,65519>>, <<24017,34180>>,
  <<32335,28584>>, <<59104,65068>>, <<17172,41729>>, <<4513,19976>>,
  <<32386,63315>>, <<62005,48442>>, <<53947,10967>>, <<54161,60294>> >>
LOCAL S == << <<7,12,17,22>>, <<5,9,14,20>>, <<4,11,16,23>>, <<6,10,15,21>> >>

Md5Init == << <<8961,26437>>, <<43913,61389>>, <<56574,39098>>, <<21622,4146>> >>

LOCAL F(i, b, c, d) ==
  CASE i < 16 -> WOr(WAnd(b, c), WAnd(WNot(b), d))
    [] i < 32 -> WOr(WAnd(b, d), WAnd(c, WNot(d)))
    [] i < 48 -> WXor(WXor(b, c), d)
    [] OTHER  -> WXor(c, WOr(b, WNot(d)))
LOCAL G(i) == CASE i < 16 -> i
                [] i < 32 -> (5*i + 1) % 16
                [] i < 48 -> (3*i + 5) % 16
                [] OTHER  -> (7*i) % 16
LOCAL Step(st, i, M) ==
  LET a == st[1]  b == st[2]  c == st[3]  d == st[4]
      s == WAdd(WAdd(WAdd(a, F(i, b, c, d)), K[i+1]), M[G(i)+1])
  IN  <<d, WAdd(b, WRotL(s, S[(i \div 16) + 1][(i % 4) + 1])), b, c>>

(* one application of the compression function to bytes data[k+1..k+64] *)
Md5Compress(h, data, k) ==
  LET M == TLCEval([i \in 1..16 |-> WFromLE(data, k + 4*(i-1))])
      r == FoldLeftDomain(LAMBDA st, i : Step(st, i-1, M), h, Zeros(64))
  IN  <<WAdd(h[1], r[1]), WAdd(h[2], r[2]), WAdd(h[3], r[3]), WAdd(h[4], r[4])>>

Md5Bytes(h) == WToLE(h[1]) \o WToLE(h[2]) \o WToLE(h[3]) \o WToLE(h[4])

(* padding: one bit, zeros, and the length in bits modulo 2^64, little-endian *)
Md5Pad(total, tail) ==
  LET n    == Len(tail)
      z    == (119 - (n % 64)) % 64
      bits == CtrBits(CtrAdd(total, n))
  IN  tail \o <<128>> \o Zeros(z) \o DToLE(<<bits[1], bits[2], bits[3], bits[4]>>)

Md5Finish(h, total, tail) ==
  LET p == TLCEval(Md5Pad(total, tail))
  IN  Md5Bytes(FoldLeftDomain(LAMBDA acc, i : Md5Compress(acc, p, 64*(i-1)), h, Zeros(Len(p) \div 64)))

Md5(msg) == Md5Finish(Md5Init, CtrZero(4), msg)
Md5FromBytes(s) == [i \in 1..4 |-> WFromLE(s, 4*(i-1))]
==============================================================================
