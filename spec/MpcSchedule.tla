----------------------------- MODULE MpcSchedule ------------------------------
(* Orders in which parties are polled and messages delivered, for replay into *)
(* the code: behaviours of Mpc.tla, with polls that come too early as well.   *)
EXTENDS MpcMC, Json, TLC
VARIABLES hist, woken, over
svars == <<vars, hist, woken, over>>
(* a message is named by sender, receiver and its number among those between  *)
(* the two *)
PerPhase(ph, from) == IF from = 0 THEN (IF ph.k = "triples" THEN 1 ELSE IF ph.k = "random" THEN ph.c ELSE 0)
                      ELSE IF ph.k \in {"open", "dist", "cast"} THEN ph.c ELSE 0
Nth(m) ==
  LET Of(o, k) == FoldLeft(LAMBDA a, b : a + b, 0, [j \in 1..k |-> PerPhase(Phases(o)[j], m.from)])
      before == FoldLeft(LAMBDA a, b : a + b, 0, [j \in 1..m.op |-> Of(Prog[j], IF j = m.op THEN m.ph - 1 ELSE Len(Phases(Prog[j])))])
  IN  before + (IF m.item = 0 THEN 0 ELSE m.item - 1)
SInit == MpcInit /\ hist = <<>> /\ woken = [i \in Parties |-> FALSE] /\ over = FALSE
P1(i) == Poll(i) /\ hist' = Append(hist, "p" \o ToString(i)) /\ woken' = [woken EXCEPT ![i] = FALSE] /\ UNCHANGED over
Early(i) == /\ woken[i] /\ ~Ready(i)
            /\ hist' = Append(hist, "p" \o ToString(i)) /\ woken' = [woken EXCEPT ![i] = FALSE]
            /\ UNCHANGED <<vars, over>>
D1(m) == /\ Deliver(m)
         /\ hist' = Append(hist, "d" \o ToString(m.from) \o "." \o ToString(m.to) \o "." \o ToString(Nth(m)))
         /\ woken' = [woken EXCEPT ![m.to] = TRUE] /\ UNCHANGED over
SEnd == AllDone /\ ~over /\ over' = TRUE /\ UNCHANGED <<vars, hist, woken>>
SNext == (\E i \in Parties : P1(i) \/ Early(i)) \/ (\E m \in net : D1(m)) \/ SEnd
SSpec == SInit /\ [][SNext]_svars
Emit == over => PrintT("BEHAVIOUR" \o ToJson(hist))
==============================================================================
