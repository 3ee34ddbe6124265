-------------------------------- MODULE Fields --------------------------------
(* Prime fields as arithmetic of integers modulo a prime, a machine with      *)
(* registers that hold field elements, and the public-key schemes on top.     *)
(* A field element is its canonical integer (a BigNat below the prime).       *)
EXTENDS BigNat, Rfc5114, FiniteSets

Mersenne(k) == Sub(Pow(<<2>>, k), <<1>>)
ShippedExponents == {2, 3, 5, 13, 17, 19, 31, 61, 89, 107, 127}
ShippedNames == {"Mersenne" \o ToString(k) : k \in ShippedExponents} \cup {"IetfGroup1", "IetfGroup2", "IetfGroup3"}
ShippedPrime(name) ==
  CASE name = "IetfGroup1" -> P1 [] name = "IetfGroup2" -> P2 [] name = "IetfGroup3" -> P3
    [] OTHER -> Mersenne(CHOOSE k \in ShippedExponents : name = "Mersenne" \o ToString(k))

(* primality: Lucas-Lehmer for Mersenne numbers, Miller-Rabin otherwise *)
LucasLehmer(k) ==
  k = 2 \/ LET m == TLCEval(Mersenne(k))
           IN  FoldLeftDomain(LAMBDA s, i : TLCEval(Mod(Sub(Add(Mul(s, s), m), <<2>>), m)), <<4>>, [i \in 1..(k - 2) |-> i]) = <<>>
MillerRabin(p, bases) ==
  LET q  == Sub(p, <<1>>)
      RECURSIVE Twos(_)
      Twos(n) == IF n[1] % 2 = 1 THEN 0 ELSE 1 + Twos(Div(n, <<2>>))
      s  == Twos(q)
      d  == Div(q, Pow(<<2>>, s))
      RECURSIVE Probe(_, _)
      Probe(x, r) == x = q \/ (r > 1 /\ Probe(TLCEval(Mod(Mul(x, x), p)), r - 1))
  IN  \A b \in bases : LET x == TLCEval(PowMod(FromNat(b), d, p)) IN x = <<1>> \/ Probe(x, s)

Elem(p, a)    == IsNum(a) /\ Lt(a, p)
FAdd(p, a, b) == Mod(Add(a, b), p)
FSub(p, a, b) == Mod(Sub(Add(a, p), b), p)
FMul(p, a, b) == Mod(Mul(a, b), p)
FSum(p, s)    == FoldLeft(LAMBDA x, y : FAdd(p, x, y), <<>>, s)
FProd(p, s)   == FoldLeft(LAMBDA x, y : FMul(p, x, y), Mod(<<1>>, p), s)
IsInverse(p, a, i) == Elem(p, i) /\ FMul(p, a, i) = Mod(<<1>>, p)
(* d, s, t with d the greatest common divisor of a and b and s a + t b = d *)
IsBezout(p, a, b, d, s, t) == /\ d = Gcd(a, b)
                              /\ Elem(p, s) /\ Elem(p, t)
                              /\ FAdd(p, FMul(p, s, a), FMul(p, t, b)) = Mod(d, p)
Negate(p, a)  == LET r == Mod(a, p) IN IF r = <<>> THEN <<>> ELSE Sub(p, r)
FromInt(p, neg, mag) == IF neg THEN Negate(p, mag) ELSE Mod(mag, p)

(* counts of N uniform draws over k classes: nothing is missing, and nothing  *)
(* further from its share than "width" (which the driver derives from N; the  *)
(* chance that a uniform source is further away is below one in 10^9).        *)
CountsUniform(counts, N, k, width) ==
  /\ FoldLeft(LAMBDA x, y : x + y, 0, counts) = N
  /\ Len(counts) = k
  /\ \A i \in 1..k : counts[i] > 0 /\ counts[i] * 1 >= (N \div k) - width /\ counts[i] <= (N \div k) + 1 + width

(* RSA with modulus n on numbers below n, as little-endian bytes *)
CanonicalBytesLE(a) == IF a = <<>> THEN <<0>> ELSE BytesLE(a)
RsaAccepts(n, msg) == Lt(FromBytesLE(msg), n)
RsaApply(n, e, msg) == CanonicalBytesLE(PowMod(FromBytesLE(msg), e, n))
==============================================================================
