------------------------------ MODULE BigNatCheck -----------------------------
(* The definitions of BigNat on sample numbers; run with and without the      *)
(* native operators, with equal results.                                      *)
EXTENDS BigNat, Rfc5114, FiniteSets
VARIABLE done
Small == 0..70
Edges == {1022, 1023, 1024, 1025, 32767, 32768, 46340}
Nats == Small \cup Edges
Bigs == {<<>>, <<1>>, <<1023>>, <<0, 1>>, <<1023, 1023>>, <<0, 0, 1>>, <<5, 0, 0, 7>>, <<1023, 1023, 1023, 1023>>,
         <<0, 1023, 0, 512>>, <<1,2,3,4,5,6,7,8,9,10,11,12,13>>, <<0,0,0,0,0,0,0,0,0,0,0,0,1>>, P1, G1, Q1, Q3}
ASSUME \A a, b \in Nats : Add(FromNat(a), FromNat(b)) = FromNat(a + b)
ASSUME \A a, b \in Nats : Mul(FromNat(a), FromNat(b)) = FromNat(a * b)
ASSUME \A a, b \in Nats : a >= b => Sub(FromNat(a), FromNat(b)) = FromNat(a - b)
ASSUME \A a \in Nats, b \in Nats \ {0} : DivMod(FromNat(a), FromNat(b)) = <<FromNat(a \div b), FromNat(a % b)>>
ASSUME \A a, b \in Bigs :
         /\ IsNum(Add(a, b)) /\ IsNum(Mul(a, b))
         /\ Sub(Add(a, b), b) = a
         /\ Mul(a, b) = Mul(b, a)
         /\ b # <<>> /\ Len(a) <= 104 => LET d == DivMod(a, b) IN
               IsNum(d[1]) /\ IsNum(d[2]) /\ Lt(d[2], b) /\ Add(Mul(d[1], b), d[2]) = a
Digest == << [a \in Bigs |-> [b \in Bigs |-> <<Add(a, b), Mul(a, b)>>]],
             [a \in {x \in Bigs : Len(x) < 20} |-> [b \in Bigs \ {<<>>} |-> DivMod(a, b)]],
             DivMod(G1, Q1), DivMod(Mul(Q1, Q3), Q1), PowMod(<<3>>, <<7, 1>>, Q1) >>
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ PrintT(<<"DIGEST", Digest>>)
Spec == Init /\ [][Next]_done
==============================================================================
