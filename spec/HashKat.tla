------------------------------- MODULE HashKat -------------------------------
(* The hash specifications against the published test vectors of RFC 1321,    *)
(* FIPS 180, RFC 7693, RFC 2202 and RFC 5869 (given as byte sequences).       *)
EXTENDS Hash, Json, IOUtils
VARIABLE n
Vectors == ndJsonDeserialize("hash_vectors.ndjson")
F(e) == [alg |-> e.alg, key |-> e.key, outlen |-> e.outlen]
Ok(e) == CASE e.ev = "digest" -> e.out = Digest(F(e), e.msg)
           [] e.ev = "hmac"   -> e.out = Hmac(F(e), e.hkey, e.msg)
           [] e.ev = "hkdf"   -> e.out = Hkdf(F(e), e.salt, e.ikm, e.info, e.len)
Init == n = 1
Next == n <= Len(Vectors) /\ n' = n + 1
Spec == Init /\ [][Next]_n
VectorsHold == n <= Len(Vectors) => Ok(Vectors[n])
==============================================================================
