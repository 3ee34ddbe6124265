------------------------------- MODULE FieldsMC -------------------------------
(* The specification of fields and schemes has the properties it is meant to  *)
(* have: checked for every combination of elements of small fields, every     *)
(* pair of private keys, and every RSA key pair of small moduli.              *)
EXTENDS Fields
CONSTANTS Primes, RsaPrimes
VARIABLES p, a, b, c
N(i) == FromNat(i)
V(x) == FoldLeft(LAMBDA acc, d : 1024 * acc + d, 0, Reverse(x))
Init == \/ /\ p \in Primes /\ a \in 0..(p - 1) /\ b \in 0..(p - 1) /\ c \in 0..(p - 1)
Next == UNCHANGED <<p, a, b, c>>
Spec == Init /\ [][Next]_<<p, a, b, c>>
P == N(p)  A == N(a)  B == N(b)  C == N(c)

Agrees ==    \* BigNat arithmetic is arithmetic
  /\ V(FAdd(P, A, B)) = (a + b) % p /\ V(FSub(P, A, B)) = (a - b) % p /\ V(FMul(P, A, B)) = (a * b) % p
  /\ FromInt(P, TRUE, A) = N((-a) % p)
Field ==
  /\ FAdd(P, A, FAdd(P, B, C)) = FAdd(P, FAdd(P, A, B), C)
  /\ FMul(P, A, FMul(P, B, C)) = FMul(P, FMul(P, A, B), C)
  /\ FMul(P, A, FAdd(P, B, C)) = FAdd(P, FMul(P, A, B), FMul(P, A, C))
  /\ FAdd(P, FSub(P, A, B), B) = A
  /\ FSum(P, <<A, B, C>>) = FAdd(P, A, FAdd(P, B, C)) /\ FProd(P, <<A, B, C>>) = FMul(P, A, FMul(P, B, C))
  /\ FSum(P, <<>>) = <<>> /\ FProd(P, <<>>) = N(1)
Inverses ==   \* exactly one inverse, and it is the power p - 2
  a # 0 => LET I == {i \in 0..(p - 1) : IsInverse(P, A, N(i))}
           IN  I = {V(PowMod(A, N(p - 2), P))}
Powers ==
  /\ PowMod(A, N(b + c), P) = FMul(P, PowMod(A, B, P), PowMod(A, C, P))
  /\ PowMod(A, <<>>, P) = N(1) /\ PowMod(A, N(1), P) = A
  /\ a # 0 => PowMod(A, N(p - 1), P) = N(1)                 \* Fermat
SameSecret ==  \* a: generator; b, c: private keys
  LET via(x, k) == PowMod(x, k, P) IN
  /\ via(via(A, B), C) = via(via(A, C), B)
  /\ via(via(A, B), C) = PowMod(A, Mul(B, C), P)
  \* a third party, with key b + 1, wherever it comes in
  /\ LET D == N(b + 1) IN
     \A s \in {<<B, C, D>>, <<C, D, B>>, <<D, B, C>>, <<D, C, B>>} :
        FoldLeft(via, A, s) = PowMod(A, Mul(Mul(B, C), D), P)
BytesRoundTrip == LET x == N(a * p * p + b * p + c) IN
  FromBytesLE(BytesLE(x)) = x /\ FromBytesBE(Reverse(BytesLE(x))) = x

IsPrimeNat(n) == n > 1 /\ \A d \in 2..(n - 1) : n % d # 0
ASSUME \A k \in (ShippedExponents \ {31, 61, 89, 107, 127, 2}) \cup {4, 6, 7, 8, 9, 10, 11} :
         LucasLehmer(k) = (k \in ShippedExponents \cup {7})
ASSUME \A n \in {x \in 5..300 : x % 2 = 1} : (n \notin {2, 3, 5, 7}) => MillerRabin(N(n), {2, 3, 5, 7} ) = IsPrimeNat(n)
(* every key pair of every small modulus restores every message *)
ASSUME \A q \in RsaPrimes, r \in RsaPrimes : q < r =>
         LET n == q * r  phi == (q - 1) * (r - 1) IN
         \A e \in 1..phi, d \in 1..phi : (e * d) % phi = 1 =>
           \A m \in 0..(n - 1) :
             LET x == CanonicalBytesLE(N(m)) IN
             /\ RsaAccepts(N(n), x)
             /\ RsaApply(N(n), N(d), RsaApply(N(n), N(e), x)) = x
==============================================================================
