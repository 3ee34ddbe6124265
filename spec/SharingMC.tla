------------------------------- MODULE SharingMC ------------------------------
(* Shamir's scheme itself, over all polynomials of small fields: threshold-   *)
(* many shares determine the secret, fewer leave it open, and sharings add up *)
(* like their secrets.  (State: one sharing after another.)                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS P, N, T
Sc == INSTANCE Sharing WITH Zero <- 0, Plus <- LAMBDA p, a, b : (a + b) % p, Minus <- LAMBDA p, a, b : (a - b) % p,
                            Times <- LAMBDA p, a, b : (a * b) % p, Num <- LAMBDA p, x : x % p
F == 0..(P - 1)
VARIABLE poly
Init == poly \in [1..T -> F]
Next == UNCHANGED poly
Spec == Init /\ [][Next]_poly
Shares == Sc!ShareOut(P, poly, N)
Inv(a) == CHOOSE i \in F : (i * a) % P = 1
(* Lagrange's formula over the shares of the parties in S *)
Lagrange(S) ==
  LET RECURSIVE Prod(_, _)
      Prod(i, J) == IF J = {} THEN 1 ELSE LET j == CHOOSE j \in J : TRUE
                                          IN  (((0 - j) % P) * Inv((i - j) % P) * Prod(i, J \ {j})) % P
      RECURSIVE Sum(_)
      Sum(I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE
                                      IN  (Shares[i] * Prod(i, S \ {i}) + Sum(I \ {i})) % P
  IN  Sum(S)
Correct == /\ Sc!IsSharingOf(P, T, poly[1], Shares)
           /\ Sc!Secret(P, T, Shares) = poly[1]
           /\ \A S \in SUBSET (1..N) : Cardinality(S) >= T => Lagrange(S) = poly[1]
           /\ \A v \in F \ {poly[1]} : ~Sc!IsSharingOf(P, T, v, Shares)
(* whatever the secret, fewer than T shares are hit by equally many polynomials *)
Polys == [1..T -> F]
Secrecy == \A S \in SUBSET (1..N) : Cardinality(S) = T - 1 =>
             \A v \in F : Cardinality({q \in Polys : q[1] = v /\ \A i \in S : Sc!Value(P, q, i) = Shares[i]}) = 1
Linear == \A q \in Polys : \A k \in F :
             Sc!IsSharingOf(P, T, (k * poly[1] + q[1]) % P, [i \in 1..N |-> (k * Shares[i] + Sc!Value(P, q, i)) % P])
==============================================================================
