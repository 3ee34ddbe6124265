-------------------------------- MODULE Words --------------------------------
(* Machine words for the hash specifications.  TLC's integers have 32 bits,   *)
(* so a word is a little-endian tuple of 16-bit limbs: two limbs for a 32-bit *)
(* word, four for a 64-bit word.  Byte strings are sequences over 0..255.     *)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise, TLC

------------------------------------------------------------------------------
(* 32-bit words *)
WAdd(a, b) == LET l == a[1] + b[1]
              IN  <<l % 65536, (a[2] + b[2] + (l \div 65536)) % 65536>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b)  == <<a[1] | b[1], a[2] | b[2]>>
WNot(a)    == <<65535 - a[1], 65535 - a[2]>>
WRotL(a, n) ==
  LET m  == n % 16
      lo == IF n >= 16 THEN a[2] ELSE a[1]
      hi == IF n >= 16 THEN a[1] ELSE a[2]
  IN  << ((lo * 2^m) % 65536) + (hi \div 2^(16-m)),
         ((hi * 2^m) % 65536) + (lo \div 2^(16-m)) >>
(* rotations to the right by the distances BLAKE2s uses *)
WRotR16(a) == <<a[2], a[1]>>
WRotR12(a) == << (a[1] \div 4096) + ((a[2] % 4096) * 16), (a[2] \div 4096) + ((a[1] % 4096) * 16) >>
WRotR8(a)  == << (a[1] \div 256) + ((a[2] % 256) * 256), (a[2] \div 256) + ((a[1] % 256) * 256) >>
WRotR7(a)  == << (a[1] \div 128) + ((a[2] % 128) * 512), (a[2] \div 128) + ((a[1] % 128) * 512) >>

(* bytes s[k+1..k+4] as a little-endian / big-endian word, and back *)
WFromLE(s, k) == <<s[k+1] + 256*s[k+2], s[k+3] + 256*s[k+4]>>
WFromBE(s, k) == <<s[k+4] + 256*s[k+3], s[k+2] + 256*s[k+1]>>
WToLE(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256>>
WToBE(w) == <<w[2] \div 256, w[2] % 256, w[1] \div 256, w[1] % 256>>

------------------------------------------------------------------------------
(* 64-bit words *)
DAdd(a, b) ==
  LET l1 == a[1] + b[1]
      l2 == a[2] + b[2] + (l1 \div 65536)
      l3 == a[3] + b[3] + (l2 \div 65536)
      l4 == a[4] + b[4] + (l3 \div 65536)
  IN  <<l1 % 65536, l2 % 65536, l3 % 65536, l4 % 65536>>
DXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2], a[3] ^^ b[3], a[4] ^^ b[4]>>
DRotR32(a) == <<a[3], a[4], a[1], a[2]>>
DRotR16(a) == <<a[2], a[3], a[4], a[1]>>
DRotR24(a) == << (a[2] \div 256) + (a[3] % 256) * 256,
                 (a[3] \div 256) + (a[4] % 256) * 256,
                 (a[4] \div 256) + (a[1] % 256) * 256,
                 (a[1] \div 256) + (a[2] % 256) * 256 >>
DRotR63(a) == << ((a[1] * 2) % 65536) + (a[4] \div 32768),
                 ((a[2] * 2) % 65536) + (a[1] \div 32768),
                 ((a[3] * 2) % 65536) + (a[2] \div 32768),
                 ((a[4] * 2) % 65536) + (a[3] \div 32768) >>
DFromLE(s, k) == <<s[k+1] + 256*s[k+2], s[k+3] + 256*s[k+4],
                   s[k+5] + 256*s[k+6], s[k+7] + 256*s[k+8]>>
DToLE(w) == <<w[1] % 256, w[1] \div 256, w[2] % 256, w[2] \div 256,
              w[3] % 256, w[3] \div 256, w[4] % 256, w[4] \div 256>>

------------------------------------------------------------------------------
(* Counters: little-endian tuples of 16-bit limbs, of any fixed width.        *)
(* CtrAdd adds a native number n < 2^30 and wraps at the width.               *)
RECURSIVE CtrAddFrom(_, _, _)
CtrAddFrom(c, n, i) ==
  IF i > Len(c) \/ n = 0 THEN c
  ELSE LET s == c[i] + (n % 65536)
       IN CtrAddFrom([c EXCEPT ![i] = s % 65536], (n \div 65536) + (s \div 65536), i + 1)
CtrAdd(c, n) == CtrAddFrom(c, n, 1)
CtrZero(width) == [i \in 1..width |-> 0]
CtrOf(n, width) == CtrAdd(CtrZero(width), n)
(* the counter of bytes as a counter of bits (times eight) *)
CtrBits(c) == [i \in 1..Len(c) |->
                 ((c[i] * 8) % 65536) + (IF i = 1 THEN 0 ELSE c[i-1] \div 8192)]

Zeros(n) == [i \in 1..n |-> 0]
Flat(f, n) == FoldLeftDomain(LAMBDA acc, i : acc \o f[i], <<>>, [i \in 1..n |-> 0])
XorBytes(s, v) == TLCEval([i \in 1..Len(s) |-> s[i] ^^ v])
==============================================================================
