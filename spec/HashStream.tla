------------------------------ MODULE HashStream -----------------------------
(* The streaming interface of a hash function, as a state machine.            *)
(* A stream is identified by a number; its abstract state is the hash         *)
(* function and the bytes fed so far.  Streams do not influence one another:  *)
(* every action changes the state of its own stream only.                     *)
EXTENDS Hash
VARIABLE streams                  \* function from live stream ids to [f, data]

StreamInit == streams = << >>     \* no stream
Open(id, f) ==
  /\ id \notin DOMAIN streams
  /\ streams' = (id :> [f |-> f, data |-> <<>>]) @@ streams
Update(id, data) ==
  /\ id \in DOMAIN streams
  /\ streams' = [streams EXCEPT ![id].data = @ \o data]
Finish(id, out) ==
  /\ id \in DOMAIN streams
  /\ out = Digest(streams[id].f, streams[id].data)
  /\ streams' = [i \in DOMAIN streams \ {id} |-> streams[i]]
(* one-shot operations leave the streams alone *)
OneShot(f, msg, out)             == out = Digest(f, msg) /\ UNCHANGED streams
MacOf(f, key, msg, out)          == out = Hmac(f, key, msg) /\ UNCHANGED streams
DeriveKey(f, s, ikm, inf, n, out) == out = Hkdf(f, s, ikm, inf, n) /\ UNCHANGED streams
(* finishing from a state whose chaining value is known *)
Resume(f, h, total, tail, out)   == out = FinishState(f, h, total, tail) /\ UNCHANGED streams
(* what the functions say about themselves, which HMAC and HKDF go by *)
Sizes(f, block, outp) ==
  block = BlockSize(f) /\ outp = OutputSize(f) /\ UNCHANGED streams
(* two ways of digesting one message *)
Agree(a, b)                      == a = b /\ UNCHANGED streams
==============================================================================
