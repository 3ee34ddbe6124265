------------------------------ MODULE FieldTrace ------------------------------
(* Validates recorded calls of jester_maths and jester_encryption.            *)
(* The state is the current field (its prime) and the registers of the        *)
(* machine that random programs run on: what the code holds in a register     *)
(* may have come about in many ways, the model holds the integer it denotes.  *)
EXTENDS Fields, Json, IOUtils
VARIABLES l, p, reg
Trace == ndJsonDeserialize(IOEnv.TRACE)
NoRegs == [i \in 0..7 |-> <<>>]

Op(e) ==                                     \* one call, by name
  CASE e.op = "add"  -> e.out = FAdd(p, e.a, e.b)
    [] e.op = "sub"  -> e.out = FSub(p, e.a, e.b)
    [] e.op = "mul"  -> e.out = FMul(p, e.a, e.b)
    [] e.op = "sum"  -> e.out = FSum(p, e.xs)
    [] e.op = "prod" -> e.out = FProd(p, e.xs)
    [] e.op = "inv"  -> IsInverse(p, e.a, e.out)
    [] e.op = "egcd" -> IsBezout(p, e.a, e.b, e.d, e.s, e.t)
    [] e.op = "pow"  -> e.out = PowMod(e.a, e.b, p)
    [] e.op = "powmod" -> e.out = PowMod(e.a, e.b, e.m)
    [] e.op = "eq"   -> \* equality and hashing of two elements
         /\ e.eq = (e.a = e.b)
         /\ e.a = e.b => e.hash
    [] e.op = "int"  ->  \* numbers beyond 64 bits may be refused, as num's FromPrimitive allows
         \/ e.out = <<FromInt(p, e.neg, e.mag)>>
         \/ e.out = <<>> /\ e.type \in {"i128", "u128"} /\ BitLen(e.mag) > (IF e.type = "i128" THEN 63 ELSE 64) /\ ~(e.neg /\ e.mag = Pow(<<2>>, 63))
    [] e.op = "big"  -> e.out = Mod(e.a, p)
    [] e.op = "str"  -> e.out = IF e.digits = <<>> \/ \E k \in DOMAIN e.digits : e.digits[k] >= e.radix THEN <<>>  \* no numeral
                                ELSE <<Mod(FromDigits(e.digits, e.radix), p)>>
    [] e.op = "frombytes" ->
         LET n == IF e.order = "le" THEN FromBytesLE(e.bytes) ELSE FromBytesBE(e.bytes)
         IN  e.out = (IF Lt(n, p) THEN <<n>> ELSE <<>>)
    [] e.op = "tobytes" -> /\ FromBytesLE(e.le) = e.a /\ FromBytesBE(e.be) = e.a
                           /\ e.backle = <<e.a>> /\ e.backbe = <<e.a>>
    [] e.op = "consts" -> e.zero = <<>> /\ e.one = Mod(<<1>>, p) /\ e.iszero = <<TRUE, FALSE>> /\ e.isone = <<FALSE, TRUE>>
    [] e.op = "dh"   -> /\ e.pa = PowMod(e.g, e.a, p) /\ e.pb = PowMod(e.g, e.b, p)
                        /\ e.sa = e.sb
                        /\ e.sa = PowMod(e.g, Mul(e.a, e.b), p)
    [] e.op = "dhmulti" -> \* several rounds: the same secret for everyone
         LET s == PowMod(e.g, FoldLeft(LAMBDA x, y : Mul(x, y), <<1>>, e.keys), p)
         IN  Len(e.outs) > 1 /\ \A i \in DOMAIN e.outs : e.outs[i] = s
    [] e.op = "keypair" -> Elem(p, e.private) /\ e.public = PowMod(e.g, e.private, p)
    [] e.op = "member" -> Elem(p, e.out)
    (* surveys of small fields: how often each element was drawn, and how     *)
    (* often each pair of successive elements                                 *)
    [] e.op = "survey" -> /\ FromNat(Len(e.counts)) = p
                          /\ CountsUniform(e.counts, e.N, Len(e.counts), e.width)
    [] e.op = "pairs" -> /\ Mul(p, p) = FromNat(Len(e.counts))
                         /\ CountsUniform(e.counts, e.N, Len(e.counts), e.width)
    (* draws from large fields: canonical, no repetition, even in the highest *)
    (* and in the lowest bits                                                 *)
    [] e.op = "draws" ->
         LET hi == [i \in DOMAIN e.xs |-> Div(Mul(<<16>>, e.xs[i]), p)]
             lo == [i \in DOMAIN e.xs |-> Mod(e.xs[i], <<16>>)]
             of(s, k) == Cardinality({i \in DOMAIN s : s[i] = k})
             n  == Len(e.xs)
         IN  /\ \A i \in DOMAIN e.xs : Elem(p, e.xs[i])
             /\ e.distinct => Cardinality({e.xs[i] : i \in DOMAIN e.xs}) = n
             /\ CountsUniform([k \in 1..16 |-> of(hi, FromNat(k - 1))], n, 16, e.width)
             /\ CountsUniform([k \in 1..16 |-> of(lo, FromNat(k - 1))], n, 16, e.width)
    [] e.op = "dependence" -> \* other random bits, other member; same bits, same member
         e.same = TRUE /\ e.different >= e.least
    [] e.op = "rsa" ->   \* out: the result, or nothing if the call refused
         e.out = (IF RsaAccepts(e.n, e.msg) THEN <<RsaApply(e.n, e.e, e.msg)>> ELSE <<>>)
    [] e.op = "rsapair" -> \* there and back again
         /\ RsaAccepts(e.n, e.msg)
         /\ e.cipher = RsaApply(e.n, e.e, e.msg)
         /\ e.back = CanonicalBytesLE(FromBytesLE(e.msg))
    [] e.op = "note" -> TRUE
    [] OTHER -> FALSE

(* a step of a program: the result goes to register d *)
Ran(e) ==
  LET a == reg[e.a]  b == reg[e.b]
  IN  CASE e.f = "add"  -> FAdd(p, a, b)
        [] e.f = "sub"  -> FSub(p, a, b)
        [] e.f = "mul"  -> FMul(p, a, b)
        [] e.f = "sum"  -> FSum(p, <<a, b, a>>)
        [] e.f = "prod" -> FProd(p, <<a, b, b>>)
        [] e.f = "zero" -> <<>>
        [] e.f = "one"  -> Mod(<<1>>, p)
        \* where an operand comes from otherwise is the business of other calls
        [] e.f \in {"load", "loadint", "inv", "pow", "prime", "random"} -> e.out

TraceInit == l = 1 /\ p = <<3>> /\ reg = NoRegs
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "field" ->
            LET q == IF e.name \in ShippedNames THEN ShippedPrime(e.name) ELSE FromDigits(e.digits, e.radix)
            IN  e.prime = q /\ p' = q /\ reg' = NoRegs
       [] e.ev = "prime" ->    \* the claim that the shipped modulus is prime
            /\ IF e.name \in {"IetfGroup1", "IetfGroup2", "IetfGroup3"}
               THEN MillerRabin(p, {2, 3, 5, 7}) ELSE LucasLehmer(e.k) /\ p = Mersenne(e.k)
            /\ UNCHANGED <<p, reg>>
       [] e.ev = "call" -> Op(e) = TRUE /\ UNCHANGED <<p, reg>>
       [] e.ev = "step" ->
            LET r == Ran(e) IN
            /\ e.out = r /\ Elem(p, r) = TRUE
            /\ reg' = [reg EXCEPT ![e.d] = r]
            \* the registers that compare equal, and those whose hashes agree
            /\ LET same == {i \in 0..7 : reg'[i] = r}
               IN  ToSet(e.same) = same /\ same \subseteq ToSet(e.hashes)
            /\ UNCHANGED p
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<l, p, reg>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1
  IN  d = Len(Trace) \/ (PrintT(<<"REJECTED", d + 1, Len(Trace)>>) /\ FALSE)
==============================================================================
