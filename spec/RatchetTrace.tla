----------------------------- MODULE RatchetTrace -----------------------------
(* Validates recorded runs of jester_double_ratchet.  The model's state moves  *)
(* with the recorded schedule; what the code did is compared with what the    *)
(* model does, as far as the property named by the environment asks.          *)
EXTENDS Ratchet, Json, IOUtils
VARIABLES l, rec,       \* position; per party, what the code showed of its sends
          lost          \* ... and of messages that got lost in bulk: keys root/from..to
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

RootOf(r) == [i \in DOMAIN r |-> {r[i][1], r[i][2]}]
MkOf(e) == [root |-> RootOf(e.mk.root), n |-> e.mk.n]
Recorded == {rec["A"][i].mk : i \in DOMAIN rec["A"]} \cup {rec["B"][i].mk : i \in DOMAIN rec["B"]}
RecordedPks == {rec["A"][i].pk : i \in DOMAIN rec["A"]} \cup {rec["B"][i].pk : i \in DOMAIN rec["B"]}
InLost(k) == \E x \in lost : x.root = k.root /\ x.from <= k.n /\ k.n <= x.to
LastRec(p) == rec[p][Len(rec[p])]

(* ---- obligations of a send: m is the model's message ---- *)
SendOk(e, m) ==
  CASE Prop \in {"R01", "R07"} -> e.kind = "ok"
    [] Prop \in {"R02", "R03", "R08"} -> e.obs = e.twin
    [] Prop = "R04" -> e.kind = "ok" /\ MkOf(e) \notin Recorded /\ ~InLost(MkOf(e))
    [] Prop = "R05" -> e.kind = "ok" /\ e.pk = m.pk /\ RootOf(e.mk.root) = m.mk.root /\ e.gen = <<>>
    [] Prop = "R06" -> /\ e.kind = "ok" /\ e.n = m.n /\ e.pn = m.pn
                       /\ IF m.n = 0 THEN e.pk \notin RecordedPks \cup {"A1"} ELSE e.pk = LastRec(e.p).pk
(* ---- of e.count sends in a row, none of them the first of its chain ---- *)
BurstOk(e, m) ==
  LET r == e.runs[1] IN
  CASE Prop \in {"R01", "R07"} -> e.kind = "ok"
    [] Prop \in {"R02", "R03", "R08"} -> e.obs = e.twin
    [] Prop = "R04" -> /\ e.kind = "ok" /\ Len(e.runs) = 1 /\ r.count = e.count
                       /\ \A k \in Recorded : ~(k.root = MkOf(r).root /\ MkOf(r).n <= k.n /\ k.n < MkOf(r).n + e.count)
                       /\ \A x \in lost : ~(x.root = MkOf(r).root /\ x.from < MkOf(r).n + e.count /\ MkOf(r).n <= x.to)
    [] Prop = "R05" -> /\ e.kind = "ok" /\ e.gen = <<>>
                       /\ \A i \in DOMAIN e.runs : e.runs[i].pk = m.pk /\ MkOf(e.runs[i]).root = m.mk.root
    [] Prop = "R06" -> /\ e.kind = "ok" /\ Len(e.runs) = 1 /\ r.count = e.count
                       /\ r.n = m.n /\ r.pn = m.pn /\ r.pk = LastRec(e.p).pk
(* ---- obligations of the first delivery of a genuine message: o is the      *)
(* model's outcome.  A message the code failed to produce ("lost") was        *)
(* objected to when it was to be sent. ---- *)
DeliverOk(e, o) ==
  CASE Prop \in {"R01", "R07"} -> e.kind = o.kind /\ e.text = sent[Peer(e.p)][e.i].text
    [] Prop \in {"R02", "R03", "R08"} -> e.obs = e.twin
    [] Prop = "R04" -> e.kind \in {"ok", "ooo"} /\ MkOf(e) = rec[Peer(e.p)][e.i].mk
    [] Prop = "R05" -> /\ e.kind \in {"ok", "ooo"}
                       /\ IF o.s.made > st[e.p].made
                          THEN e.gen = <<[key |-> o.s.own, with |-> "g"]>>
                          ELSE e.gen = <<>>
    [] Prop = "R06" -> e.kind \in {"ok", "ooo"}
(* ---- duplicates and forged headers: an error and no plaintext ---- *)
BadOk(e) == IF Prop = "R08" THEN e.obs = e.twin ELSE e.kind = "err"
(* R08: a trace of several sessions side by side is recorded session by       *)
(* session; "twin" is what the session shows when it is alone.                *)

TraceInit == RatchetInit /\ l = 1 /\ rec = [p \in Parties |-> <<>>] /\ lost = {}
Shown(e) == IF "mk" \in DOMAIN e THEN [pk |-> e.pk, mk |-> MkOf(e)] ELSE [pk |-> "?", mk |-> NoKey]
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.ev = "start" ->
            /\ st' = [p \in Parties |-> IF p = "A" THEN Initiator ELSE Responder]
            /\ sent' = [p \in Parties |-> <<>>] /\ got' = [p \in Parties |-> {}]
            /\ rec' = [p \in Parties |-> <<>>] /\ lost' = {}
            \* the handshake: one pair each, made with the session's generator
            /\ Prop = "R08" => e.obs = e.twin
            /\ Prop = "R05" => e.gen = << [key |-> "A1", with |-> "g"], [key |-> "B1", with |-> "g"] >>
       [] e.ev = "send" ->
            /\ SendOk(e, NextMessage(e.p))
            /\ Send(e.p, e.text)
            /\ rec' = [rec EXCEPT ![e.p] = Append(@, Shown(e))]
            /\ UNCHANGED lost
       [] e.ev = "burst" ->
            /\ st[e.p].ns > 0
            /\ BurstOk(e, NextMessage(e.p)) = TRUE
            /\ SendLost(e.p, e.count)
            /\ lost' = lost \cup {[root |-> MkOf(e.runs[i]).root, from |-> e.runs[i].mk.n, to |-> e.runs[i].mk.n + e.runs[i].count - 1] : i \in DOMAIN e.runs}
            /\ UNCHANGED rec
       [] e.ev = "deliver" ->
            /\ DeliverOk(e, Outcome(e.p, Genuine(e.p, e.i)))
            /\ Deliver(e.p, e.i)
            /\ UNCHANGED <<rec, lost>>
       [] e.ev = "dup" -> BadOk(e) /\ Replay(e.p, e.i) /\ UNCHANGED <<rec, lost>>
       [] e.ev = "forge" -> BadOk(e) /\ Forge(e.p, [pk |-> e.pk, n |-> e.n, pn |-> e.pn]) /\ UNCHANGED <<rec, lost>>
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<st, sent, got, l, rec, lost>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter - 1
  IN  d = Len(Trace) \/ (PrintT(<<"REJECTED", d + 1, Len(Trace)>>) /\ FALSE)
==============================================================================
