------------------------------ MODULE RatchetMC -------------------------------
(* Exhaustive check of the ratchet's design at small bounds.                  *)
EXTENDS Ratchet
CONSTANTS MaxSent, N, Adversary
Next ==
  \E p \in Parties :
    \/ Len(sent[p]) < MaxSent /\ Send(p, "")
    \/ \E i \in DOMAIN sent[Peer(p)] : Deliver(p, i)
    \/ Adversary /\ \E i \in got[p] : Replay(p, i)
    \/ Adversary /\ \E m \in Impossibles(p, N) : Forge(p, m)
Spec == RatchetInit /\ [][Next]_rvars
NoForgeryN == NoForgery(N)
==============================================================================
