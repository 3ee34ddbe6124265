-------------------------------- MODULE Hash ---------------------------------
(* The hash functions of jester_hashes under one name, and the constructions  *)
(* on top of them: HMAC (RFC 2104) and HKDF (RFC 5869).                       *)
(* A hash function is a record [alg, key, outlen]; key and outlen matter for  *)
(* BLAKE2 only.                                                               *)
EXTENDS Md5, Sha1, Blake2

Digest(f, msg) ==
  CASE f.alg = "md5"     -> Md5(msg)
    [] f.alg = "sha1"    -> Sha1(msg)
    [] f.alg = "blake2b" -> Blake2b(msg, f.key, f.outlen)
    [] f.alg = "blake2s" -> Blake2s(msg, f.key, f.outlen)

BlockSize(f) == IF f.alg = "blake2b" THEN 128 ELSE 64
OutputSize(f) == CASE f.alg = "md5" -> 16 [] f.alg = "sha1" -> 20 [] OTHER -> f.outlen

(* the digest of a state reached elsewhere: chaining value (as the bytes of   *)
(* its words), bytes compressed so far (a counter), bytes not yet compressed  *)
FinishState(f, hbytes, total, tail) ==
  CASE f.alg = "md5"     -> Md5Finish(Md5FromBytes(hbytes), total, tail)
    [] f.alg = "sha1"    -> Sha1Finish(Sha1FromBytes(hbytes), total, tail)
    [] f.alg = "blake2b" -> Blake2bFinish(Blake2bFromBytes(hbytes), total, tail, f.outlen)
    [] f.alg = "blake2s" -> Blake2sFinish(Blake2sFromBytes(hbytes), total, tail, f.outlen)

------------------------------------------------------------------------------
HmacKey(f, key) ==
  LET k == IF Len(key) > BlockSize(f) THEN Digest(f, key) ELSE key
  IN  TLCEval(k \o Zeros(BlockSize(f) - Len(k)))
Hmac(f, key, msg) ==
  LET k == HmacKey(f, key)
  IN  Digest(f, XorBytes(k, 92) \o TLCEval(Digest(f, XorBytes(k, 54) \o msg)))

(* RFC 5869: an empty salt stands for a string of HashLen zeros, which HMAC   *)
(* pads to the same key.                                                      *)
HkdfExtract(f, salt, ikm) == Hmac(f, salt, ikm)
(* the blocks T(1) .. T(n): the accumulator is the last block and all of them *)
LOCAL HkdfT(f, prk, info, n) ==
  FoldLeftDomain(LAMBDA acc, i : LET t == TLCEval(Hmac(f, prk, TLCEval(acc[1] \o info \o <<i>>)))
                                 IN  TLCEval(<<t, acc[2] \o t>>),
                 << <<>>, <<>> >>, Zeros(n))[2]
HkdfBlocks(f, len) == (len + OutputSize(f) - 1) \div OutputSize(f)
Hkdf(f, salt, ikm, info, len) ==
  LET prk == TLCEval(HkdfExtract(f, salt, ikm))
  IN  SubSeq(HkdfT(f, prk, info, HkdfBlocks(f, len)), 1, len)
==============================================================================
