--------------------------------- MODULE Mpc ----------------------------------
(* Parties 1..N that compute on shared secrets over an asynchronous network.  *)
(*                                                                            *)
(* Prog is a sequence of operations [op, args]; the arguments are registers,  *)
(* first those of the inputs, then one per result.  Every operation is a      *)
(* sequence of communication phases; between two phases a party computes on   *)
(* what it has received.  A phase is one of                                   *)
(*   triples  c   the dealer hands every party its shares of c new triples    *)
(*   random   c   the dealer hands every party its shares of c random numbers *)
(*   dist     c   c times, every party shares a value of its own with all     *)
(*   open     c   all parties exchange their shares of c values               *)
(*   cast     c   as dist, but nobody waits: the numbers are under way during *)
(*   take     c   later phases, until the operation that takes them           *)
(* All messages of a phase are sent before any of them is awaited.            *)
(*                                                                            *)
(* `world` holds all secrets and all randomness of a run; it never changes.   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANTS P, N, T, Prog, Inputs,   \* Inputs: how many
          Secrets, Coefs, Masks, Blinds, Contribs,  \* sets that the values of a world range over
          Bundle                   \* all messages of a phase between two parties travel as one
VARIABLES world, party, net, log
vars == <<world, party, net, log>>

Sc == INSTANCE Sharing WITH Zero <- 0, Plus <- LAMBDA p, a, b : (a + b) % p, Minus <- LAMBDA p, a, b : (a - b) % p,
                            Times <- LAMBDA p, a, b : (a * b) % p, Num <- LAMBDA p, x : x % p
F == 0..(P - 1)
Parties == 1..N
InvF(a) == IF a = 0 THEN 0 ELSE CHOOSE i \in F : (i * a) % P = 1
Sum(s) == FoldLeft(LAMBDA a, b : (a + b) % P, 0, s)
Prod(s) == FoldLeft(LAMBDA a, b : (a * b) % P, 1 % P, s)
Concat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
------------------------------------------------------------------------------
(* phases *)
Ph(k, c) == [k |-> k, c |-> c]
MulPhases(l) == <<Ph("triples", l), Ph("open", 2 * l)>>
InvPhases(l) == <<Ph("random", l)>> \o MulPhases(l) \o <<Ph("open", l)>>
OrPhases(l)  == <<Ph("random", l)>> \o InvPhases(l) \o MulPhases(l - 1) \o MulPhases(l) \o <<Ph("open", l)>>
Phases(o) ==
  CASE o.op = "mul" -> MulPhases(Len(o.args) \div 2)
    [] o.op = "inv" -> InvPhases(Len(o.args))
    [] o.op = "or"  -> OrPhases(Len(o.args))
    [] o.op = "sel" -> MulPhases(1)
    [] o.op = "rand" -> <<Ph("dist", 1)>>
    [] o.op = "start" -> <<Ph("cast", 1)>>
    [] o.op = "finish" -> <<Ph("take", 1)>>       \* of the number that operation o.of started
    [] o.op = "lost" -> <<Ph("cast", Len(o.args))>> \* an inversion or OR that was begun and dropped
    [] o.op = "add" -> <<>>
(* what a party computes, on shares r[i] of the arguments and results `res`   *)
(* of the phases so far; the same formulas serve for values in clear          *)
Pairs(r) == [i \in 1..(Len(r) \div 2) |-> <<r[2 * i - 1], r[2 * i]>>]
MulOpens(pairs, tr) == Concat([i \in DOMAIN pairs |-> <<(pairs[i][2] - tr[i][2]) % P, (pairs[i][1] - tr[i][1]) % P>>])
MulOut(pairs, tr, o) == [i \in DOMAIN pairs |->
                           (tr[i][3] + tr[i][2] * o[2 * i] + tr[i][1] * o[2 * i - 1] + o[2 * i] * o[2 * i - 1]) % P]
Paired(a, b) == [i \in DOMAIN a |-> <<a[i], b[i]>>]
InvOut(res) == [i \in DOMAIN res[1] |-> (res[1][i] * InvF(res[4][i])) % P]
(* coefficients of the polynomial that is 0 at 1 and 1 at 2..l+1 *)
PolyMul(a, b) == [k \in 1..(Len(a) + Len(b) - 1) |->
                    Sum([i \in 1..Len(a) |-> IF k - i + 1 \in 1..Len(b) THEN (a[i] * b[k - i + 1]) % P ELSE 0])]
OrCoefs(l) ==
  LET pts == 1..(l + 1)
      Others(i) == SetToSeq(pts \ {i})
      Basis(i) == LET num == FoldLeft(LAMBDA acc, j : PolyMul(acc, <<(0 - j) % P, 1>>), <<1>>, Others(i))
                      den == Prod([k \in 1..l |-> (i - Others(i)[k]) % P])
                  IN  [k \in 1..(l + 1) |-> (num[k] * InvF(den)) % P]
  IN  [k \in 1..(l + 1) |-> Sum([i \in 1..l |-> Basis(i + 1)[k]])]
OrFactorPairs(r, res) ==
  LET h   == res[1]
      inv == InvOut(SubSeq(res, 2, 5))
      can == <<inv[1]>> \o MulOut([i \in 1..(Len(h) - 1) |-> <<h[i], inv[i + 1]>>], res[6], res[7])
      s   == (Sum(r) + 1) % P
  IN  [i \in DOMAIN h |-> <<s, can[i]>>]
OrOut(l, res) ==
  LET c == OrCoefs(l)
  IN  <<(c[1] + Sum([k \in 1..l |-> (c[k + 1] * res[1][k] * Prod(SubSeq(res[10], 1, k))) % P])) % P>>
(* the values opened in phase k *)
Opens(o, k, r, res) ==
  CASE o.op = "mul" -> MulOpens(Pairs(r), res[1])
    [] o.op = "sel" -> MulOpens(<< <<r[1], (r[2] - r[3]) % P>> >>, res[1])
    [] o.op = "inv" -> IF k = 3 THEN MulOpens(Paired(r, res[1]), res[2]) ELSE MulOut(Paired(r, res[1]), res[2], res[3])
    [] o.op = "or" ->
         LET h == res[1] IN
         CASE k = 4 -> MulOpens(Paired(h, res[2]), res[3])
           [] k = 5 -> MulOut(Paired(h, res[2]), res[3], res[4])
           [] k = 7 -> LET inv == InvOut(SubSeq(res, 2, 5))
                       IN  MulOpens([i \in 1..(Len(h) - 1) |-> <<h[i], inv[i + 1]>>], res[6])
           [] k = 9 -> MulOpens(OrFactorPairs(r, res), res[8])
           [] k = 10 -> MulOut(OrFactorPairs(r, res), res[8], res[9])
Results(o, r, res) ==
  CASE o.op = "mul" -> MulOut(Pairs(r), res[1], res[2])
    [] o.op = "sel" -> <<(MulOut(<< <<r[1], (r[2] - r[3]) % P>> >>, res[1], res[2])[1] + r[3]) % P>>
    [] o.op = "inv" -> InvOut(res)
    [] o.op = "or"  -> OrOut(Len(r), res)
    [] o.op \in {"rand", "finish"} -> <<Sum(res[1][1])>>
    [] o.op \in {"start", "lost"} -> <<>>
    [] o.op = "add" -> <<Sum(r)>>
(* how many of a kind the first k phases of the first i operations use up *)
Used(kind, i, k) ==
  LET Kind(x) == IF x = "cast" THEN "dist" ELSE x
      Of(o, m) == FoldLeft(LAMBDA a, b : a + b, 0, [j \in 1..m |-> IF Kind(Phases(o)[j].k) = kind THEN Phases(o)[j].c ELSE 0])
  IN  FoldLeft(LAMBDA a, b : a + b, 0, [j \in 1..i |-> Of(Prog[j], IF j = i THEN k ELSE Len(Phases(Prog[j])))])
Need(kind) == IF Prog = <<>> THEN 0 ELSE Used(kind, Len(Prog), Len(Phases(Prog[Len(Prog)])))
(* what an operation is to compute, in clear *)
Ideal(o, v, w, dists) ==
  CASE o.op = "mul" -> [i \in DOMAIN Pairs(v) |-> (Pairs(v)[i][1] * Pairs(v)[i][2]) % P]
    [] o.op = "sel" -> <<IF v[1] = 1 THEN v[2] ELSE v[3]>>
    [] o.op = "inv" -> [i \in DOMAIN v |-> InvF(v[i])]
    [] o.op = "or"  -> <<IF \E i \in DOMAIN v : v[i] = 1 THEN 1 ELSE 0>>
    [] o.op = "rand" -> <<Sum([j \in Parties |-> w.contrib[j][dists + 1][1]])>>
    [] o.op \in {"start", "lost"} -> <<>>
    [] o.op = "finish" -> <<Sum([j \in Parties |-> w.contrib[j][Used("dist", o.of, 0) + 1][1]])>>
    [] o.op = "add" -> <<Sum(v)>>
IdealRun(w) ==                       \* all registers at the end, in clear
  FoldLeftDomain(LAMBDA regs, i :
      regs \o Ideal(Prog[i], [k \in DOMAIN Prog[i].args |-> regs[Prog[i].args[k]]], w, Used("dist", i - 1, Len(Phases(Prog[i - 1])))),
    [i \in 1..Inputs |-> w.inp[i][1]], Prog)
------------------------------------------------------------------------------
(* the polynomials of a world: the value followed by coefficients *)
Poly(S) == {<<v>> \o c : v \in S, c \in Coefs}
TriplePolys == {<< <<a>> \o c[1], <<b>> \o c[2], <<(a * b) % P>> \o c[3]>> :
                  a \in Masks, b \in Masks, c \in Coefs \X Coefs \X Coefs}
Worlds == [inp : [1..Inputs -> Poly(Secrets)], triples : [1..Need("triples") -> TriplePolys],
           randoms : [1..Need("random") -> Poly(Blinds)], contrib : [Parties -> [1..Need("dist") -> Poly(Contribs)]]]
Share(poly, i) == Sc!Value(P, poly, i)

(* a party: operation, phase, registers, results of phases; waiting for a     *)
(* phase with what has arrived of it; and how many messages it has sent       *)
Start(w, i) == [op |-> 1, ph |-> 0, regs |-> [k \in 1..Inputs |-> Share(w.inp[k], i)], res |-> <<>>, got |-> {}]
MpcInit == /\ world \in Worlds
           /\ party = [i \in Parties |-> Start(world, i)]
           /\ net = {}
           /\ log = [i \in Parties |-> <<>>]      \* the openings a party took part in, with its share, and other communications
Finished(s) == s.op > Len(Prog)
Cur(s) == Phases(Prog[s.op])
Args(s) == [k \in DOMAIN Prog[s.op].args |-> s.regs[Prog[s.op].args[k]]]
(* the items of a phase: openings and dealings one by one, or bundled *)
Items(ph) == IF Bundle \/ ph.k \in {"triples"} THEN (IF ph.c = 0 /\ ph.k # "triples" THEN {} ELSE {0}) ELSE 1..ph.c
Senders(ph) == IF ph.k \in {"triples", "random"} THEN {0} ELSE Parties
(* the phase whose messages a party waits for *)
Awaits(s) == CASE Cur(s)[s.ph].k = "cast" -> <<0, 0>>
               [] Cur(s)[s.ph].k = "take" -> <<Prog[s.op].of, 1>>
               [] OTHER -> <<s.op, s.ph>>
Arrived(s, i) == Cur(s)[s.ph].k = "cast" \/ s.got = {<<from, it>> : from \in Senders(Cur(s)[s.ph]), it \in Items(Cur(s)[s.ph])}

(* what a phase yields once everything has arrived.  The shares are a         *)
(* function of the state of the sender when it entered the phase, so they are *)
(* looked up in the log rather than carried by the messages.                  *)
Entry(j, o, k) == CHOOSE e \in ToSet(log[j]) : e.op = o /\ e.ph = k
Yield(s, i) ==
  LET ph == Cur(s)[s.ph]
      base(kind) == Used(kind, s.op, s.ph - 1)
  IN  CASE ph.k = "triples" -> [m \in 1..ph.c |-> [q \in 1..3 |-> Share(world.triples[base("triples") + m][q], i)]]
        [] ph.k = "random" -> [m \in 1..ph.c |-> Share(world.randoms[base("random") + m], i)]
        [] ph.k = "cast" -> <<>>
        [] ph.k = "take" -> [m \in 1..ph.c |-> [j \in Parties |-> Share(world.contrib[j][Used("dist", Prog[s.op].of, 0) + m], i)]]
        [] ph.k = "dist" -> [m \in 1..ph.c |-> [j \in Parties |-> Share(world.contrib[j][base("dist") + m], i)]]
        [] ph.k = "open" -> [m \in 1..ph.c |-> Sc!Secret(P, T, [j \in Parties |-> Entry(j, s.op, s.ph).ys[m]])]

(* a party that has all it waits for goes on until it has to wait again *)
Enter(s) == \* the next phase, or the next operation
  IF s.ph < Len(Cur(s)) THEN [s EXCEPT !.ph = s.ph + 1, !.got = {}]
  ELSE [s EXCEPT !.op = s.op + 1, !.ph = 0, !.res = <<>>, !.got = {}, !.regs = s.regs \o Results(Prog[s.op], Args(s), s.res)]
RECURSIVE Settle(_)
Settle(s) ==    \* through operations without communication
  IF Finished(s) THEN s
  ELSE LET n == Enter(s) IN IF n.ph = 0 THEN Settle(n) ELSE n
Ready(i) == LET s == party[i] IN IF Finished(s) THEN FALSE ELSE IF s.ph = 0 THEN TRUE ELSE Arrived(s, i)
Poll(i) ==
  /\ Ready(i)
  /\ LET s == party[i]
         r == IF s.ph = 0 THEN s ELSE [s EXCEPT !.res = Append(s.res, Yield(s, i))]
         n == Settle(r)
     IN  IF Finished(n) THEN /\ party' = [party EXCEPT ![i] = n]
                             /\ UNCHANGED <<world, net, log>>
         ELSE LET ph == Cur(n)[n.ph]
                  ys == IF ph.k = "open" THEN Opens(Prog[n.op], n.ph, Args(n), n.res) ELSE <<>>
                  own == IF i \in Senders(ph) THEN {<<i, it>> : it \in Items(ph)} ELSE {}
              IN  /\ party' = [party EXCEPT ![i] = [n EXCEPT !.got = own \cup
                                    {<<m.from, m.item>> : m \in {m \in net : m.to = i /\ m.early /\ <<m.op, m.ph>> = Awaits(n)}}]]
                  /\ log' = [log EXCEPT ![i] = Append(@, [op |-> n.op, ph |-> n.ph, k |-> ph.k, c |-> ph.c, ys |-> ys])]
                  /\ net' = {m \in net : ~(m.to = i /\ m.early /\ <<m.op, m.ph>> = Awaits(n))} \cup
                       (IF ph.k = "take" THEN {}
                        ELSE IF 0 \in Senders(ph)
                        THEN {[from |-> 0, to |-> i, op |-> n.op, ph |-> n.ph, item |-> it, early |-> FALSE] : it \in Items(ph)}
                        ELSE {[from |-> i, to |-> j, op |-> n.op, ph |-> n.ph, item |-> it, early |-> FALSE] :
                                it \in Items(ph), j \in Parties \ {i}})
                  /\ UNCHANGED world
(* a message that arrives before its receiver has entered the phase is kept *)
Deliver(m) ==
  /\ m \in net /\ ~m.early
  /\ LET s == party[m.to] IN
     IF (IF Finished(s) THEN FALSE ELSE IF s.ph = 0 THEN FALSE ELSE Awaits(s) = <<m.op, m.ph>>)
     THEN /\ party' = [party EXCEPT ![m.to].got = @ \cup {<<m.from, m.item>>}]
          /\ net' = net \ {m}
     ELSE /\ net' = (net \ {m}) \cup {[m EXCEPT !.early = TRUE]}
          /\ UNCHANGED party
  /\ UNCHANGED <<world, log>>
AllDone == \A i \in Parties : Finished(party[i])
MpcNext == (\E i \in Parties : Poll(i)) \/ (\E m \in net : Deliver(m)) \/ (AllDone /\ UNCHANGED vars)
MpcSpec == MpcInit /\ [][MpcNext]_vars /\ WF_vars(MpcNext)
(* one fixed schedule, to range over many worlds instead: whoever can go on   *)
(* does, then everything is delivered at once                                 *)
Flush == /\ net # {} /\ \A i \in Parties : ~Ready(i)
         /\ party' = [i \in Parties |-> [party[i] EXCEPT !.got = @ \cup {<<m.from, m.item>> : m \in {m \in net : m.to = i}}]]
         /\ net' = {} /\ UNCHANGED <<world, log>>
First == CHOOSE i \in Parties : Ready(i) /\ \A j \in 1..(i - 1) : ~Ready(j)
LockNext == \/ (\E i \in Parties : Ready(i)) /\ Poll(First)
            \/ Flush
            \/ AllDone /\ UNCHANGED vars
LockSpec == MpcInit /\ [][LockNext]_vars /\ WF_vars(LockNext)
------------------------------------------------------------------------------
(* S13: all parties issue the same sequence of communications *)
Shape(i) == [k \in DOMAIN log[i] |-> [log[i][k] EXCEPT !.ys = <<>>]]
InStep == \A i, j \in Parties : IsPrefix(Shape(i), Shape(j)) \/ IsPrefix(Shape(j), Shape(i))
(* S13: every opening combines shares of one value *)
Consistent ==
  \A k \in DOMAIN log[1] : (\A i \in Parties : k \in DOMAIN log[i]) =>
    \A m \in DOMAIN log[1][k].ys : Sc!OnPolynomial(P, T, [i \in Parties |-> log[i][k].ys[m]])
(* S04, S06, S07, S09, S12: the results are sharings of what they are to be *)
Correct == AllDone => LET v == IdealRun(world) IN
             \A k \in DOMAIN v : Sc!IsSharingOf(P, T, v[k], [i \in Parties |-> party[i].regs[k]])
(* S05, S08: triples and random numbers are used once and in the stated number *)
Fresh == \A i \in Parties : LET n(kind) == FoldLeft(LAMBDA a, e : a + (IF e.k = kind THEN e.c ELSE 0), 0, log[i])
                            IN  AllDone => n("triples") = Need("triples") /\ n("random") = Need("random")
NoLeftovers == AllDone => \A m \in net : Prog[m.op].op = "lost"
Done == <>AllDone
==============================================================================
