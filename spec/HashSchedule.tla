----------------------------- MODULE HashSchedule ----------------------------
(* Generates histories of the streaming interface: several streams of several *)
(* hash functions, opened, fed pieces of boundary lengths and finished in any *)
(* interleaving.  The histories are replayed into the code.                   *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Ids, Algs, Lens, Ops, MaxTotal
VARIABLES live, hist, done
vars == <<live, hist, done>>

Init == live = [i \in {} |-> 0] /\ hist = <<>> /\ done = FALSE
Rec(r) == hist' = Append(hist, r)
Open(i, a) == /\ i \notin DOMAIN live
              /\ live' = (i :> 0) @@ live
              /\ Rec([op |-> "open", id |-> i, alg |-> a])
Update(i, n) == /\ i \in DOMAIN live
                /\ live[i] + n <= MaxTotal
                /\ live' = [live EXCEPT ![i] = @ + n]
                /\ Rec([op |-> "update", id |-> i, len |-> n])
Finish(i) == /\ i \in DOMAIN live
             /\ live' = [j \in DOMAIN live \ {i} |-> live[j]]
             /\ Rec([op |-> "finish", id |-> i])
Next == /\ Len(hist) < Ops
        /\ \E i \in Ids : \/ \E a \in Algs : Open(i, a)
                          \/ \E n \in Lens : Update(i, n)
                          \/ Finish(i)
        /\ UNCHANGED done
End == Len(hist) = Ops /\ ~done /\ done' = TRUE /\ UNCHANGED <<live, hist>>
Spec == Init /\ [][Next \/ End]_vars
Emit == done => PrintT("BEHAVIOUR" \o ToJson(hist))
==============================================================================
