------------------------------ MODULE MpcPrivacy ------------------------------
(* What is opened in a run of Prog, in clear, as a function of the secrets    *)
(* and of the randomness.  One state per choice of secrets: whatever they     *)
(* are, over all randomness the same openings occur equally often.            *)
EXTENDS MpcMC, TLC, Functions
CONSTANTS Masked     \* FALSE: only the openings that no mask changes, with fixed masks
VARIABLE secrets
ASSUME N = 1
(* a run in clear: the openings of the program, for one choice of randomness *)
Clear(sec, tr, rn) ==
  LET Phase(o, i, r, acc, k) == \* acc = <<results of phases, openings>>
        LET ph == Phases(o)[k]
            tb == Used("triples", i, k - 1)
            rb == Used("random", i, k - 1)
            y  == CASE ph.k = "triples" -> [m \in 1..ph.c |-> <<tr[tb + m][1], tr[tb + m][2], (tr[tb + m][1] * tr[tb + m][2]) % P>>]
                    [] ph.k = "random" -> [m \in 1..ph.c |-> rn[rb + m]]
                    [] ph.k = "open" -> Opens(o, k, r, acc[1])
        IN  <<Append(acc[1], y), acc[2] \o (IF ph.k = "open" THEN <<y>> ELSE <<>>)>>
      Op(st, i) == LET o == Prog[i]
                       r == [k \in DOMAIN o.args |-> st[1][o.args[k]]]
                       a == FoldLeftDomain(LAMBDA acc, k : TLCEval(Phase(o, i, r, acc, k)), << <<>>, <<>> >>, Phases(o))
                   IN  <<st[1] \o Results(o, r, a[1]), st[2] \o a[2]>>
  IN  FoldLeftDomain(LAMBDA st, i : TLCEval(Op(st, i)), <<sec, <<>> >>, Prog)[2]
Triples == [1..Need("triples") -> Masks \X Masks]
Randoms == [1..Need("random") -> Blinds]
Bag(f) == LET v == TLCEval(f) IN [o \in Range(v) |-> Cardinality({w \in DOMAIN v : v[w] = o})]
Openings(sec) ==
  IF Masked THEN Bag([w \in Triples \X Randoms |-> Concat(Clear(sec, w[1], w[2]))])
  ELSE LET t == CHOOSE t \in Triples : TRUE
       \* of an inversion the last opening, of an OR the last one of its inversion and its own last one
       IN  Bag([rn \in Randoms |-> LET c == Clear(sec, t, rn) IN c[2] \o (IF Prog[1].op = "or" THEN c[Len(c)] ELSE <<>>)])
SecretChoices == [1..Inputs -> Secrets]
RefBag == Openings(CHOOSE s \in SecretChoices : TRUE)
Init2 == secrets \in SecretChoices /\ world = 0 /\ party = 0 /\ net = 0 /\ log = 0
Next2 == UNCHANGED <<secrets, vars>>
PSpec == Init2 /\ [][Next2]_<<secrets, vars>>
Private == Openings(secrets) = RefBag
(* multiplication alone: all tuples of openings occur equally often *)
Uniform == LET b == Openings(secrets) IN
             /\ Cardinality({b[o] : o \in DOMAIN b}) = 1
             /\ Cardinality(DOMAIN b) = P ^ (2 * Need("triples"))
==============================================================================
