------------------------------ MODULE HashTrace ------------------------------
(* Accepts a recorded run of jester_hashes iff it is a behaviour of           *)
(* HashStream.  Every line of the trace is one call that returned; a call     *)
(* that panicked is recorded as event "panic", which no action explains.      *)
EXTENDS HashStream, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)

F(e) == [alg |-> e.alg, key |-> e.key, outlen |-> e.outlen]
TraceInit == StreamInit /\ l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "digest" -> OneShot(F(e), e.msg, e.out)
       [] e.ev = "open"   -> Open(e.id, F(e))
       [] e.ev = "update" -> Update(e.id, e.data)
       [] e.ev = "finish" -> Finish(e.id, e.out)
       [] e.ev = "hmac"   -> MacOf(F(e), e.hkey, e.msg, e.out)
       [] e.ev = "hkdf"   -> DeriveKey(F(e), e.salt, e.ikm, e.info, e.len, e.out)
       [] e.ev = "resume" -> Resume(F(e), e.h, e.total, e.tail, e.out)
       [] e.ev = "agree"  -> Agree(e.a, e.b)
       [] e.ev = "sizes"  -> Sizes(F(e), e.block, e.output)
       [] e.ev = "note"   -> UNCHANGED streams
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<streams, l>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1
  IN  d = Len(Trace) \/ (PrintT(<<"REJECTED", d + 1, Len(Trace)>>) /\ FALSE)
==============================================================================
