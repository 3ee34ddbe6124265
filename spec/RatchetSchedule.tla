--------------------------- MODULE RatchetSchedule ----------------------------
(* Generates histories of two ratchet sessions for replay into the code.      *)
(* First a lane (party and kind of operation) is picked, then an operation,   *)
(* so that simulation does not drown in the many possible forgeries.          *)
(* Operations of different parties commute unless one delivers the message    *)
(* the other just sent; only one order of commuting neighbours is generated.  *)
EXTENDS Ratchet, Json
CONSTANTS MaxSent, N, Kinds, Ops, Reduce, MaxBad
VARIABLES hist, lane, done
svars == <<st, sent, got, hist, lane, done>>

Lanes == {x \in Parties \X Kinds :
            LET p == x[1] IN
            /\ CASE x[2] = "send"    -> st[p].est /\ Len(sent[p]) < MaxSent
                 [] x[2] = "deliver" -> DOMAIN sent[Peer(p)] \ got[p] # {}
                 [] x[2] = "dup"     -> got[p] # {}
                 [] x[2] = "forge"   -> st[p].est
            /\ x[2] \in {"dup", "forge"} => Cardinality({k \in DOMAIN hist : hist[k].op = x[2]}) < MaxBad
            /\ Reduce /\ hist # <<>> => LET h == hist[Len(hist)] IN
                 h.p = "B" /\ p = "A" => h.op = "send" /\ x[2] = "deliver"}
(* after an operation of B, an operation of A has to depend on it *)
Ordered(p, i) == Reduce /\ hist # <<>> /\ hist[Len(hist)].p = "B" /\ p = "A" => i = Len(sent["B"])
SInit == RatchetInit /\ hist = <<>> /\ lane = <<"", "">> /\ done = FALSE
Pick == /\ lane[1] = "" /\ Len(hist) < Ops
        /\ lane' \in Lanes
        /\ UNCHANGED <<st, sent, got, hist, done>>
Ref(p, k) == CASE k = "A1" -> "h" [] k = "X1" -> "x"
               [] OTHER -> ToString(CHOOSE i \in DOMAIN sent[Peer(p)] :
                              /\ sent[Peer(p)][i].msg.pk = k
                              /\ \A j \in 1..(i-1) : sent[Peer(p)][j].msg.pk # k)
Do == /\ lane[1] # "" /\ lane' = <<"", "">> /\ UNCHANGED done
      /\ LET p == lane[1] IN
         CASE lane[2] = "send" -> Send(p, "") /\ hist' = Append(hist, [op |-> "send", p |-> p])
           [] lane[2] = "deliver" -> \E i \in DOMAIN sent[Peer(p)] :
                Ordered(p, i) /\ Deliver(p, i) /\ hist' = Append(hist, [op |-> "deliver", p |-> p, i |-> i])
           [] lane[2] = "dup" -> \E i \in got[p] :
                Replay(p, i) /\ hist' = Append(hist, [op |-> "dup", p |-> p, i |-> i])
           [] lane[2] = "forge" -> \E m \in Impossibles(p, N) :
                Forge(p, m) /\ hist' = Append(hist, [op |-> "forge", p |-> p, ref |-> Ref(p, m.pk), pk |-> m.pk, n |-> m.n, pn |-> m.pn])
End == /\ ~done /\ lane[1] = "" /\ (Len(hist) = Ops \/ Lanes = {})
       /\ done' = TRUE /\ UNCHANGED <<st, sent, got, hist, lane>>
SSpec == SInit /\ [][Pick \/ Do \/ End]_svars
Emit == done => PrintT("BEHAVIOUR" \o ToJson(hist))
==============================================================================
