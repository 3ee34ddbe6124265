------------------------------- MODULE Blake2 --------------------------------
(* RFC 7693: BLAKE2b (64-bit words) and BLAKE2s (32-bit words).  v is kept as *)
(* four rows of four words.  A digest is computed from a chaining value h, a  *)
(* byte counter t and the bytes that remain (key block included).             *)
EXTENDS Words

LOCAL SIGMA == <<
  <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>,
  <<14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3>>,
  <<11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4>>,
  <<7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8>>,
  <<9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13>>,
  <<2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9>>,
  <<12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11>>,
  <<13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10>>,
  <<6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5>>,
  <<10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0>> >>

IV2b == << <<51464,62396,58983,27145>>, <<42811,33994,44677,47975>>, <<63531,65172,62322,15470>>, <<14065,24349,62778,42319>>, <<33489,44518,21119,20750>>, <<27679,11070,26764,39685>>, <<48491,64321,55723,8067>>, <<8569,4990,52505,23520>> >>
IV2s == << <<58983,27145>>, <<44677,47975>>, <<62322,15470>>, <<62778,42319>>, <<21119,20750>>, <<26764,39685>>, <<55723,8067>>, <<52505,23520>> >>

(* ---- BLAKE2b ---- *)
LOCAL Gb(a, b, c, d, x, y) ==
  LET a1 == DAdd(DAdd(a, b), x)
      d1 == DRotR32(DXor(d, a1))
      c1 == DAdd(c, d1)
      b1 == DRotR24(DXor(b, c1))
      a2 == DAdd(DAdd(a1, b1), y)
      d2 == DRotR16(DXor(d1, a2))
      c2 == DAdd(c1, d2)
      b2 == DRotR63(DXor(b1, c2))
  IN  <<a2, b2, c2, d2>>
LOCAL Gs(a, b, c, d, x, y) ==
  LET a1 == WAdd(WAdd(a, b), x)
      d1 == WRotR16(WXor(d, a1))
      c1 == WAdd(c, d1)
      b1 == WRotR12(WXor(b, c1))
      a2 == WAdd(WAdd(a1, b1), y)
      d2 == WRotR8(WXor(d1, a2))
      c2 == WAdd(c1, d2)
      b2 == WRotR7(WXor(b1, c2))
  IN  <<a2, b2, c2, d2>>
LOCAL Round(G(_, _, _, _, _, _), v, m, r) ==
  LET s == SIGMA[(r % 10) + 1]
      M(i) == m[s[i] + 1]
      A == v[1]  B == v[2]  C == v[3]  D == v[4]
      p1 == G(A[1], B[1], C[1], D[1], M(1), M(2))
      p2 == G(A[2], B[2], C[2], D[2], M(3), M(4))
      p3 == G(A[3], B[3], C[3], D[3], M(5), M(6))
      p4 == G(A[4], B[4], C[4], D[4], M(7), M(8))
      q1 == G(p1[1], p2[2], p3[3], p4[4], M(9), M(10))
      q2 == G(p2[1], p3[2], p4[3], p1[4], M(11), M(12))
      q3 == G(p3[1], p4[2], p1[3], p2[4], M(13), M(14))
      q4 == G(p4[1], p1[2], p2[3], p3[4], M(15), M(16))
  IN  << <<q1[1], q2[1], q3[1], q4[1]>>, <<q4[2], q1[2], q2[2], q3[2]>>,
         <<q3[3], q4[3], q1[3], q2[3]>>, <<q2[4], q3[4], q4[4], q1[4]>> >>

(* t is a counter of eight (BLAKE2b) or four (BLAKE2s) limbs *)
Blake2bCompress(h, data, k, t, last) ==
  LET m == TLCEval([i \in 1..16 |-> DFromLE(data, k + 8*(i-1))])
      z == <<0,0,0,0>>
      v == << <<h[1],h[2],h[3],h[4]>>, <<h[5],h[6],h[7],h[8]>>,
              <<IV2b[1],IV2b[2],IV2b[3],IV2b[4]>>,
              << DXor(IV2b[5], <<t[1],t[2],t[3],t[4]>>), DXor(IV2b[6], <<t[5],t[6],t[7],t[8]>>),
                 IF last THEN DXor(IV2b[7], <<65535,65535,65535,65535>>) ELSE IV2b[7], IV2b[8] >> >>
      r == FoldLeftDomain(LAMBDA acc, i : Round(Gb, acc, m, i-1), v, Zeros(12))
      X(i) == DXor(h[i], DXor(r[((i-1) \div 4) + 1][((i-1) % 4) + 1], r[((i-1) \div 4) + 3][((i-1) % 4) + 1]))
  IN  <<X(1), X(2), X(3), X(4), X(5), X(6), X(7), X(8)>>
Blake2sCompress(h, data, k, t, last) ==
  LET m == TLCEval([i \in 1..16 |-> WFromLE(data, k + 4*(i-1))])
      v == << <<h[1],h[2],h[3],h[4]>>, <<h[5],h[6],h[7],h[8]>>,
              <<IV2s[1],IV2s[2],IV2s[3],IV2s[4]>>,
              << WXor(IV2s[5], <<t[1],t[2]>>), WXor(IV2s[6], <<t[3],t[4]>>),
                 IF last THEN WXor(IV2s[7], <<65535,65535>>) ELSE IV2s[7], IV2s[8] >> >>
      r == FoldLeftDomain(LAMBDA acc, i : Round(Gs, acc, m, i-1), v, Zeros(10))
      X(i) == WXor(h[i], WXor(r[((i-1) \div 4) + 1][((i-1) % 4) + 1], r[((i-1) \div 4) + 3][((i-1) % 4) + 1]))
  IN  <<X(1), X(2), X(3), X(4), X(5), X(6), X(7), X(8)>>

Blake2bBytes(h) == Flat([i \in 1..8 |-> DToLE(h[i])], 8)
Blake2sBytes(h) == Flat([i \in 1..8 |-> WToLE(h[i])], 8)

(* all blocks but the last with the counter of the bytes so far; the last one *)
(* (full or zero-padded, and present even if there is no data) is flagged     *)
LOCAL Finish(Compress(_, _, _, _, _), bb, h, t, data) ==
  LET n      == Len(data)
      blocks == IF n = 0 THEN 1 ELSE (n + bb - 1) \div bb
      p      == TLCEval(data \o Zeros(blocks * bb - n))
      body   == FoldLeftDomain(LAMBDA acc, i : Compress(acc, p, bb*(i-1), CtrAdd(t, bb*i), FALSE),
                               h, Zeros(blocks - 1))
  IN  Compress(body, p, bb*(blocks-1), CtrAdd(t, n), TRUE)
Blake2bFinish(h, t, data, nn) == SubSeq(Blake2bBytes(Finish(Blake2bCompress, 128, h, t, data)), 1, nn)
Blake2sFinish(h, t, data, nn) == SubSeq(Blake2sBytes(Finish(Blake2sCompress, 64, h, t, data)), 1, nn)

(* parameter block: digest length, key length, fanout and depth one *)
Blake2bInit(kk, nn) == [IV2b EXCEPT ![1] = DXor(@, <<nn + 256*kk, 257, 0, 0>>)]
Blake2sInit(kk, nn) == [IV2s EXCEPT ![1] = WXor(@, <<nn + 256*kk, 257>>)]
LOCAL KeyBlock(key, bb) == IF key = <<>> THEN <<>> ELSE key \o Zeros(bb - Len(key))
Blake2b(msg, key, nn) == Blake2bFinish(Blake2bInit(Len(key), nn), CtrZero(8), KeyBlock(key, 128) \o msg, nn)
Blake2s(msg, key, nn) == Blake2sFinish(Blake2sInit(Len(key), nn), CtrZero(4), KeyBlock(key, 64) \o msg, nn)
Blake2bFromBytes(s) == [i \in 1..8 |-> DFromLE(s, 8*(i-1))]
Blake2sFromBytes(s) == [i \in 1..8 |-> WFromLE(s, 4*(i-1))]
==============================================================================
