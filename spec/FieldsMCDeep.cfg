CONSTANTS
 Primes = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31}
 RsaPrimes = {2, 3, 5, 7, 11}
SPECIFICATION Spec
INVARIANTS Agrees Field Inverses Powers SameSecret BytesRoundTrip
CHECK_DEADLOCK FALSE
