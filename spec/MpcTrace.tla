------------------------------- MODULE MpcTrace -------------------------------
(* Validates recorded runs of jester_sharing, judging the property named by   *)
(* the environment variable PROP.  The state is what has been learnt from     *)
(* runs that later ones are compared with, and the registers of the machine   *)
(* that computes on shares without communication.                             *)
EXTENDS Fields, Json, IOUtils
VARIABLES l, seen, lin
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
Sc == INSTANCE Sharing WITH Zero <- <<>>, Plus <- FAdd, Minus <- FSub, Times <- FMul, Num <- LAMBDA p, x : Mod(FromNat(x), p)
Ids(n) == [i \in 1..n |-> i]
------------------------------------------------------------------------------
(* what the operations of a program compute, on clear values v and results r *)
Lost == {"lost_" \o x : x \in {"mul", "umul", "inv", "uinv", "or", "uor", "sel"}}   \* begun, and dropped at once
Count(o) == CASE o.op = "umul" -> Len(o.args) \div 2
              [] o.op \in {"uinv", "rands"} -> Len(o.args)
              [] o.op \in {"start", "drop"} \cup Lost -> 0
              [] OTHER -> 1
Unjudged == {"rand", "rands", "start", "finish", "finishlast", "drop"} \cup Lost
Bit01(a) == a = <<>> \/ a = <<1>>
Computes(p, o, v, r) ==
  CASE o.op \in {"mul", "umul"} -> \A i \in DOMAIN r : r[i] = FMul(p, v[2 * i - 1], v[2 * i])
    [] o.op \in {"inv", "uinv"} -> \A i \in DOMAIN r : v[i] # <<>> => IsInverse(p, v[i], r[i])
    [] o.op \in {"or", "uor"} -> (\A i \in DOMAIN v : Bit01(v[i])) => r[1] = (IF \E i \in DOMAIN v : v[i] # <<>> THEN <<1>> ELSE <<>>)
    [] o.op = "sel" -> Bit01(v[1]) => r[1] = (IF v[1] # <<>> THEN v[2] ELSE v[3])
    [] o.op = "add" -> r[1] = FAdd(p, v[1], v[2])
    [] o.op = "sub" -> r[1] = FSub(p, v[1], v[2])
    [] o.op \in Unjudged -> TRUE
Of(e, i, kind) == SelectSeq(e.comms[i], LAMBDA c : c.k = kind)
(* contributions to the k-th joint random number, and the number *)
Contributed(e, k) == FSum(e.p, [i \in 1..e.n |-> Of(e, i, "dist")[k].v])
(* inversion and OR are undefined if a joint random number is zero *)
Inverts(e) == \E k \in DOMAIN e.prog : e.prog[k].op \in {"inv", "uinv", "or", "uor", "lost_inv", "lost_uinv", "lost_or", "lost_uor"}
Least(e, kind) == LET c == {Len(Of(e, i, kind)) : i \in 1..e.n} IN CHOOSE m \in c : \A x \in c : m <= x
Undefined(e) == /\ Inverts(e)
                /\ \/ \E k \in DOMAIN e.blind : e.blind[k] = <<>>
                   \/ e.rng = "real" /\ \E k \in 1..Least(e, "dist") : Contributed(e, k) = <<>>
WellShared(e, r) == r.x = Ids(e.n) /\ Len(r.y) = e.n /\ Sc!OnPolynomial(e.p, e.t, r.y)
Clear(e, r) == Sc!Secret(e.p, e.t, r)
(* every party has its share of every result, and the results are right *)
RightResults(e) ==
  /\ e.outcome = "done"
  /\ Len(e.out) = Len(e.prog)
  /\ \A k \in DOMAIN e.prog : Len(e.out[k]) = Count(e.prog[k]) /\ \A m \in DOMAIN e.out[k] : WellShared(e, e.out[k][m])
  /\ LET start == [i \in DOMAIN e.in |-> Clear(e, e.in[i])]
         Step(acc, k) == \* acc = <<registers, right so far>>
           LET v == [a \in DOMAIN e.prog[k].args |-> acc[1][e.prog[k].args[a] + 1]]
               r == TLCEval([m \in DOMAIN e.out[k] |-> Clear(e, e.out[k][m].y)])
           IN  <<acc[1] \o r, acc[2] /\ (e.prog[k].op \notin Unjudged => Computes(e.p, e.prog[k], v, r))>>
     IN  FoldLeftDomain(LAMBDA acc, k : TLCEval(Step(acc, k)), <<start, TRUE>>, e.prog)[2]
(* S06: the k-th random number is the sum of the k-th contributions.  Numbers   *)
(* may be under way during later operations, awaited in any order, or never.   *)
Numbers(e) ==                      \* the shares of each, in the order in which they were started
  LET Step(acc, k) ==              \* acc: numbers, and which of them are under way
        LET o == e.prog[k].op  u == acc.open  i == IF o = "finishlast" THEN Last(u) ELSE Head(u) IN
        CASE o \in {"rand", "rands"} -> [acc EXCEPT !.rs = @ \o [m \in DOMAIN e.out[k] |-> e.out[k][m].y]]
          [] o = "start" -> [rs |-> Append(acc.rs, <<>>), open |-> Append(u, Len(acc.rs) + 1)]
          [] o = "finish" -> [rs |-> [acc.rs EXCEPT ![i] = e.out[k][1].y], open |-> Tail(u)]
          [] o = "finishlast" -> [rs |-> [acc.rs EXCEPT ![i] = e.out[k][1].y], open |-> Front(u)]
          [] o = "drop" -> [acc EXCEPT !.open = Tail(u)]
          [] OTHER -> acc
  IN  FoldLeftDomain(LAMBDA acc, k : TLCEval(Step(acc, k)), [rs |-> <<>>, open |-> <<>>], e.prog).rs
RightNumbers(e) ==
  e.rng = "real" =>
    LET rs == Numbers(e)
    IN  /\ \A i \in 1..e.n : Len(Of(e, i, "dist")) = Len(rs)
        /\ \A k \in DOMAIN rs : rs[k] # <<>> => Clear(e, rs[k]) = Contributed(e, k)
(* S06: in a large field fresh contributions differ from all that were drawn before *)
Drawn(e) == LET All == [i \in 1..e.n |-> [k \in DOMAIN Of(e, i, "dist") |-> Of(e, i, "dist")[k].v]]
            IN  FoldLeft(LAMBDA acc, s : acc \o s, <<>>, All)
Large(p) == Lt(Mul(FromNat(1048576), FromNat(1048576)), p)
FreshNumbers(e) ==
  IF ~(e.rng = "real" /\ Large(e.p)) THEN UNCHANGED seen
  ELSE LET d == Drawn(e)  s == ToSet(d)  old == IF e.field \in DOMAIN seen THEN seen[e.field] ELSE {}
       IN  /\ Cardinality(s) = Len(d) /\ s \cap old = {}
           /\ seen' = (e.field :> (s \cup old)) @@ seen
(* S05, S08: fresh randomness in the stated number, by each party *)
Products(e) == FoldLeft(LAMBDA a, o : a + (IF o.op \in {"mul", "umul"} THEN Count(o) ELSE 0), 0, e.prog)
Inversions(e) == FoldLeft(LAMBDA a, o : a + (IF o.op \in {"inv", "uinv"} THEN Count(o) ELSE 0), 0, e.prog)
TriplesUsed(e, i) == FoldLeft(LAMBDA a, c : a + c.c, 0, Of(e, i, "triples"))
(* what is opened, as sequences over parties *)
Opening(e, k) == [i \in 1..e.n |-> Of(e, i, "open")[k].y]
OpenedValues(e) == [k \in 1..Len(Of(e, 1, "open")) |-> Clear(e, Opening(e, k))]
(* runs with equal inputs in a large field: equal masks would give equal openings *)
AllDifferent(e) == e.outcome = "done" /\ LET v == OpenedValues(e) IN Cardinality({v[k] : k \in DOMAIN v}) = Len(v)
(* S13 *)
Untimed(cs) == [k \in DOMAIN cs |-> [cs[k] EXCEPT !.w = 0]]
Shape(cs) == [k \in DOMAIN cs |-> IF cs[k].k = "triples" THEN <<cs[k].k, cs[k].c>> ELSE <<cs[k].k, 0>>]
InStep(e) == /\ \A i \in 1..e.n : Shape(e.comms[i]) = Shape(e.comms[1])
             /\ \A k \in DOMAIN e.comms[1] : e.comms[1][k].k = "open" =>
                  /\ \A i \in 1..e.n : e.comms[i][k].x = i
                  /\ Sc!OnPolynomial(e.p, e.t, [i \in 1..e.n |-> e.comms[i][k].y])
(* S14 *)
OpenRounds(e) == Cardinality({c.w : c \in ToSet(Of(e, 1, "open"))})

(* compares a run with the first of its group *)
Learn(e, what) == IF e.group = "-" THEN UNCHANGED seen
                  ELSE IF e.group \in DOMAIN seen THEN seen[e.group] = what /\ UNCHANGED seen
                  ELSE seen' = seen @@ (e.group :> what)
RunEvent(e) ==
  CASE Prop \in {"S04", "S07", "S09", "S10", "S12"} -> (Undefined(e) \/ RightResults(e)) = TRUE /\ UNCHANGED seen
    [] Prop = "S16" -> (Undefined(e) \/ (RightResults(e) /\ (Inverts(e) \/ e.comms = <<>> \/ RightNumbers(e)))) = TRUE /\ UNCHANGED seen
    [] Prop = "S06" -> (RightResults(e) /\ RightNumbers(e)) = TRUE /\ FreshNumbers(e)
    [] Prop = "S05" -> (AllDifferent(e) /\ \A i \in 1..e.n : TriplesUsed(e, i) = Products(e)) = TRUE /\ UNCHANGED seen
    [] Prop = "S08" -> (AllDifferent(e) /\ \A i \in 1..e.n : Len(Of(e, i, "random")) = Inversions(e)) = TRUE /\ UNCHANGED seen
    [] Prop = "S11" -> AllDifferent(e) = TRUE /\ UNCHANGED seen
    [] Prop = "S13" -> /\ (e.outcome = "done" /\ InStep(e)) = TRUE
                       /\ Learn(e, <<[i \in DOMAIN e.comms |-> Untimed(e.comms[i])], e.out>>)
    [] Prop = "S14" -> /\ e.outcome = "done"
                       /\ (\A k \in DOMAIN e.prog : e.prog[k].op \in {"inv", "uinv"} => OpenRounds(e) = 2 * Len(e.prog)) = TRUE
                       /\ (\A k \in DOMAIN e.prog : e.prog[k].op \in {"mul", "umul"} => OpenRounds(e) = Len(e.prog)) = TRUE
                       /\ Learn(e, <<e.rounds, OpenRounds(e)>>)
    [] Prop = "S15" -> /\ e.outcome = "done"
                       /\ Learn(e, <<e.comms, e.out, e.rounds>>)
------------------------------------------------------------------------------
(* what is opened over all (or many) choices of the randomness *)
PairCells(e) == [q \in DOMAIN e.pairs |-> e.pairs[q].c]
BagEvent(e) ==
  /\ ~("failed" \in DOMAIN e)
  /\ CASE e.mode = "sample" ->
          \* any two openings are distributed as with the other secrets, up to chance
          IF e.group \in DOMAIN seen
          THEN /\ (LET a == seen[e.group]  b == PairCells(e) IN
                   /\ DOMAIN a = DOMAIN b
                   /\ \A q \in DOMAIN a : \A c \in DOMAIN a[q] :
                        a[q][c] - b[q][c] <= e.width /\ b[q][c] - a[q][c] <= e.width) = TRUE
               /\ UNCHANGED seen
          ELSE seen' = seen @@ (e.group :> PairCells(e))
       [] OTHER ->
          /\ (Prop = "S05" => \* uniform over all tuples
               LET m == Len(e.bag[1]) - 1 IN
               /\ Len(e.bag) = e.p ^ m
               /\ \A k \in DOMAIN e.bag : e.bag[k][m + 1] = e.bag[1][m + 1]) = TRUE
          /\ Learn(e, <<e.positions, e.bag>>)
------------------------------------------------------------------------------
Uniform(c, k, width) == CountsUniform(c.counts, c.N, k, width)
Contributions(e) ==
  /\ ~("failed" \in DOMAIN e)
  /\ Uniform(e.single, e.p, e.widths[1])
  /\ e.within.N > 0 => Uniform(e.within, e.p * e.p, e.widths[2])
  /\ e.n > 1 => Uniform(e.across, e.p * e.p, e.widths[3])
ShareEvent(e) ==
  CASE Prop = "S01" -> \A k \in DOMAIN e.recs : e.recs[k].out = e.secret
    [] Prop = "S02" -> /\ [i \in DOMAIN e.shares |-> e.shares[i].x] = Ids(e.n)
                       /\ Sc!IsSharingOf(e.p, e.t, e.secret, [i \in DOMAIN e.shares |-> e.shares[i].y])
Sharings(e) == CountsUniform(e.counts, e.N, Len(e.counts), e.width)
(* independent uniform elements of a large field: all different, and spread   *)
(* evenly over sixteen classes of high and of low bits                        *)
LooksUniform(p, xs, width) ==
  LET hi == [i \in DOMAIN xs |-> Div(Mul(<<16>>, xs[i]), p)]
      lo == [i \in DOMAIN xs |-> Mod(xs[i], <<16>>)]
      of(s, k) == Cardinality({i \in DOMAIN s : s[i] = k})
      n  == Len(xs)
  IN  /\ \A i \in DOMAIN xs : Elem(p, xs[i])
      /\ Cardinality({xs[i] : i \in DOMAIN xs}) = n
      /\ CountsUniform([k \in 1..16 |-> of(hi, FromNat(k - 1))], n, 16, width)
      /\ CountsUniform([k \in 1..16 |-> of(lo, FromNat(k - 1))], n, 16, width)
LargeShares(e) == LooksUniform(e.p, e.xs, e.width)
(* the polynomials behind sharings: coeffs are a hint that is verified here *)
Polynomials(e) ==
  /\ \A i \in DOMAIN e.of : LET q == e.of[i] IN
       /\ Len(q.coeffs) = e.t - 1
       /\ [k \in DOMAIN q.shares |-> q.shares[k].x] = Ids(e.n)
       /\ [k \in DOMAIN q.shares |-> q.shares[k].y] = Sc!ShareOut(e.p, <<q.secret>> \o q.coeffs, e.n)
  /\ LooksUniform(e.p, FoldLeft(LAMBDA acc, q : acc \o q.coeffs, <<>>, e.of), e.width)
(* computing on shares without communication: lin holds p, t, n and the clear *)
(* values of the registers                                                    *)
Ys(s) == [i \in DOMAIN s |-> s[i].y]
LinStart(e) == [p |-> e.p, t |-> e.t, n |-> e.n, regs |-> [k \in DOMAIN e.regs |-> Sc!Secret(e.p, e.t, Ys(e.regs[k]))]]
LinResult(e) ==
  LET v(k) == lin.regs[e.args[k] + 1] IN
  CASE e.op = "add" -> FAdd(lin.p, v(1), v(2))
    [] e.op = "sub" -> FSub(lin.p, v(1), v(2))
    [] e.op = "adds" -> FAdd(lin.p, v(1), Mod(e.scalar, lin.p))
    [] e.op = "subs" -> FSub(lin.p, v(1), Mod(e.scalar, lin.p))
    [] e.op = "muls" -> FMul(lin.p, v(1), Mod(e.scalar, lin.p))
    [] e.op = "sum" -> FSum(lin.p, [k \in DOMAIN e.args |-> v(k)])
All(e, kind) == \A i \in DOMAIN e.kinds : e.kinds[i] = kind
LinOp(e) ==
  IF e.op \in {"badadd", "badsub", "badsum", "badmid", "badfirst"} THEN All(e, "refused") /\ UNCHANGED lin
  ELSE IF e.op = "sum" /\ e.args = <<>> THEN All(e, "nothing") /\ UNCHANGED lin
  ELSE LET r == LinResult(e) IN
       /\ All(e, "share")
       /\ ([i \in DOMAIN e.out |-> e.out[i].x] = Ids(lin.n) /\ Sc!IsSharingOf(lin.p, lin.t, r, Ys(e.out))) = TRUE
       /\ lin' = [lin EXCEPT !.regs = Append(@, r)]
------------------------------------------------------------------------------
TraceInit == l = 1 /\ seen = <<>> /\ lin = <<>>
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "run" -> RunEvent(e) /\ UNCHANGED lin
       [] e.ev = "abandoned" -> UNCHANGED <<seen, lin>>  \* some parties stopped midway: nothing is owed
       [] e.ev = "bag" -> BagEvent(e) /\ UNCHANGED lin
       [] e.ev = "contributions" -> Contributions(e) = TRUE /\ UNCHANGED <<seen, lin>>
       [] e.ev = "share" -> ShareEvent(e) = TRUE /\ UNCHANGED <<seen, lin>>
       [] e.ev = "sharings" -> Sharings(e) = TRUE /\ UNCHANGED <<seen, lin>>
       [] e.ev = "sharedraws" -> LargeShares(e) = TRUE /\ UNCHANGED <<seen, lin>>
       [] e.ev = "polynomials" -> Polynomials(e) = TRUE /\ UNCHANGED <<seen, lin>>
       [] e.ev = "refuse" -> (e.t < 2 => e.kind = "refused") /\ UNCHANGED <<seen, lin>>
       [] e.ev = "lin" -> lin' = LinStart(e) /\ UNCHANGED seen
       [] e.ev = "linop" -> LinOp(e) /\ UNCHANGED seen
       [] e.ev = "delegation" -> e.direct = e.delegated /\ UNCHANGED <<seen, lin>>
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<l, seen, lin>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1
  IN  d = Len(Trace) \/ (PrintT(<<"REJECTED", d + 1, Len(Trace)>>) /\ FALSE)
==============================================================================
