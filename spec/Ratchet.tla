------------------------------- MODULE Ratchet -------------------------------
(* The double ratchet between an initiator A and a responder B over a network *)
(* that may lose, delay, reorder and duplicate messages, with an adversary    *)
(* who also forges headers.  Cryptography is symbolic:                        *)
(*   - a key pair is a name ("A1", "B2", ...); DH of two pairs is their set;  *)
(*   - a root key is the sequence of all DH values mixed into it;             *)
(*   - a sending chain is named by the root key it was derived with, its n-th *)
(*     message key is [root, n].                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Parties == {"A", "B"}
Peer(p) == IF p = "A" THEN "B" ELSE "A"
Key(p, i) == p \o ToString(i)
DH(k1, k2) == {k1, k2}
None == "none"                      \* no key
NoChain == <<>>                     \* chains are named by non-empty root keys
NoKey == [root |-> <<>>, n |-> 0]

VARIABLES st,      \* per party: its session
          sent,    \* per party: its messages, in order
          got      \* per party: which of the peer's messages it has decrypted
rvars == <<st, sent, got>>

(* est: established;  made: key pairs generated;  own: current pair;          *)
(* peer: partner's current key;  root: root key;  cks, ckr: root keys naming  *)
(* the sending and the receiving chain (or NoChain);  ns, nr: messages sent and  *)
(* received in them;  pn: length of the previous sending chain;               *)
(* missed: <<key, number, root>> of skipped messages;  retired: old keys      *)
Initiator == [est |-> FALSE, made |-> 1, own |-> "A1", peer |-> None, root |-> <<>>,
              cks |-> NoChain, ckr |-> NoChain, ns |-> 0, nr |-> 0, pn |-> 0, missed |-> {}, retired |-> {}]
Responder ==
  LET r == <<DH("B1", "A1")>>
  IN  [est |-> TRUE, made |-> 1, own |-> "B1", peer |-> "A1", root |-> r,
       cks |-> r, ckr |-> NoChain, ns |-> 0, nr |-> 0, pn |-> 0, missed |-> {}, retired |-> {}]
RatchetInit == /\ st = [p \in Parties |-> IF p = "A" THEN Initiator ELSE Responder]
               /\ sent = [p \in Parties |-> <<>>]
               /\ got = [p \in Parties |-> {}]

(* ---- sending ---- *)
NextMessage(p) == [pk |-> st[p].own, n |-> st[p].ns, pn |-> st[p].pn,
                   mk |-> [root |-> st[p].cks, n |-> st[p].ns]]
Send(p, text) ==
  /\ st[p].est
  /\ sent' = [sent EXCEPT ![p] = Append(@, [msg |-> NextMessage(p), text |-> text])]
  /\ st' = [st EXCEPT ![p].ns = @ + 1]
  /\ UNCHANGED got

(* messages of which nothing is heard again *)
SendLost(p, k) ==
  /\ st[p].est
  /\ st' = [st EXCEPT ![p].ns = @ + k]
  /\ UNCHANGED <<sent, got>>

(* ---- receiving: what a party with session s makes of a header ---- *)
Rejected(s) == [kind |-> "err", mk |-> NoKey, s |-> s]
(* a header whose key is new: both halves of a Diffie-Hellman ratchet step *)
NewChain(p, s, m) ==
  LET skipped == IF s.ckr = NoChain THEN {} ELSE {<<s.peer, i, s.ckr>> : i \in s.nr..(m.pn - 1)}
      r1   == Append(s.root, DH(s.own, m.pk))
      mine == Key(p, s.made + 1)
      r2   == Append(r1, DH(mine, m.pk))
  IN  [kind |-> "ok", mk |-> [root |-> r1, n |-> m.n],
       s |-> [est |-> TRUE, made |-> s.made + 1, own |-> mine, peer |-> m.pk, root |-> r2,
              cks |-> r2, ckr |-> r1, ns |-> 0, nr |-> m.n + 1, pn |-> s.ns,
              missed |-> s.missed \cup skipped \cup {<<m.pk, i, r1>> : i \in 0..(m.n - 1)},
              retired |-> s.retired \cup (IF s.peer = None THEN {} ELSE {s.peer})]]
SameChain(s, m) ==
  [kind |-> "ok", mk |-> [root |-> s.ckr, n |-> m.n],
   s |-> [s EXCEPT !.nr = m.n + 1, !.missed = @ \cup {<<m.pk, i, s.ckr>> : i \in s.nr..(m.n - 1)}]]
Late(s, m) ==
  LET f == {x \in s.missed : x[1] = m.pk /\ x[2] = m.n}
  IN  IF f = {} THEN Rejected(s)
      ELSE LET x == CHOOSE y \in f : TRUE
           IN  [kind |-> "ooo", mk |-> [root |-> x[3], n |-> m.n], s |-> [s EXCEPT !.missed = @ \ {x}]]
Handle(p, s, m) ==
  CASE ~s.est -> NewChain(p, s, m)
    [] s.est /\ s.ckr = NoChain /\ (m.pn > 0 \/ m.pk = s.peer) -> Rejected(s)
    [] s.est /\ s.ckr # NoChain /\ m.pk = s.peer ->
         IF m.n >= s.nr THEN SameChain(s, m) ELSE Late(s, m)
    [] s.est /\ m.pk # s.peer /\ m.pk \in s.retired -> Late(s, m)
    [] s.est /\ s.ckr = NoChain /\ m.pn = 0 /\ m.pk # s.peer -> NewChain(p, s, m)
    [] s.est /\ s.ckr # NoChain /\ m.pk # s.peer /\ m.pk \notin s.retired ->
         IF m.pn >= s.nr THEN NewChain(p, s, m) ELSE Rejected(s)

Genuine(p, i) == sent[Peer(p)][i].msg
Outcome(p, m) == Handle(p, st[p], m)
Deliver(p, i) ==                    \* the first delivery of the peer's i-th message
  /\ i \in DOMAIN sent[Peer(p)] /\ i \notin got[p]
  /\ st' = [st EXCEPT ![p] = Outcome(p, Genuine(p, i)).s]
  /\ got' = [got EXCEPT ![p] = @ \cup {i}]
  /\ UNCHANGED sent
Replay(p, i) ==
  /\ i \in got[p]
  /\ st' = [st EXCEPT ![p] = Outcome(p, Genuine(p, i)).s]
  /\ UNCHANGED <<sent, got>>

(* ---- headers that cannot belong to the session, defined by its history --- *)
PeerMsgs(p) == sent[Peer(p)]
Known(p)   == {PeerMsgs(p)[i].msg.pk : i \in got[p]}          \* chains of which something arrived
Newest(p)  == IF got[p] = {} THEN None
              ELSE PeerMsgs(p)[CHOOSE i \in got[p] : \A j \in got[p] : j <= i].msg.pk
InChain(p, k) == {i \in DOMAIN PeerMsgs(p) : PeerMsgs(p)[i].msg.pk = k}
Top(p, k) == CHOOSE n \in {PeerMsgs(p)[i].msg.n : i \in InChain(p, k) \cap got[p]} :
                \A i \in InChain(p, k) \cap got[p] : PeerMsgs(p)[i].msg.n <= n
Pending(p, k) == {PeerMsgs(p)[i].msg.n : i \in InChain(p, k) \ got[p]}
(* a known chain is retired once something of the next one arrived *)
ForgedKnown(p, N) == {[pk |-> k, n |-> n, pn |-> q] : k \in Known(p), n \in N, q \in N}
ImpossibleKnown(p, m) == /\ m.pk \in Known(p)
                         /\ m.n \notin Pending(p, m.pk)
                         /\ m.pk = Newest(p) => m.n <= Top(p, m.pk)
ImpossibleHandshake(p, m) == p = "B" /\ m.pk = "A1"
ImpossibleNew(p, m) == /\ m.pk = "X1"
                       /\ m.pn < (IF got[p] = {} THEN 0 ELSE Top(p, Newest(p)) + 1)
                          \/ (p = "B" /\ got[p] = {} /\ m.pn > 0)
Impossible(p, m) == /\ st[p].est
                    /\ ImpossibleKnown(p, m) \/ ImpossibleHandshake(p, m) \/ ImpossibleNew(p, m)
Forge(p, m) ==
  /\ Impossible(p, m)
  /\ st' = [st EXCEPT ![p] = Outcome(p, m).s]
  /\ UNCHANGED <<sent, got>>

------------------------------------------------------------------------------
(* What the session guarantees.                                               *)
NewestSoFar(p, i) == \A j \in got[p] : j < i      \* nothing sent later arrived before
EveryMessageDecrypts ==              \* R01, R07
  \A p \in Parties : \A i \in DOMAIN PeerMsgs(p) \ got[p] :
    LET o == Outcome(p, Genuine(p, i))
    IN  /\ o.mk = Genuine(p, i).mk
        /\ o.kind = (IF NewestSoFar(p, i) THEN "ok" ELSE "ooo")
NoReplay ==                          \* R02
  \A p \in Parties : \A i \in got[p] : Outcome(p, Genuine(p, i)) = Rejected(st[p])
Keys(p) == {PeerMsgs(p)[i].msg.pk : i \in DOMAIN PeerMsgs(p)} \cup {"A1", "X1"}
Impossibles(p, N) == {m \in [pk : Keys(p), n : N, pn : N] : Impossible(p, m)}
NoForgery(N) ==                      \* R03
  \A p \in Parties : \A m \in Impossibles(p, N) : Outcome(p, m) = Rejected(st[p])
KeysUsedOnce ==                      \* R04
  \A p, q \in Parties : \A i \in DOMAIN sent[p], j \in DOMAIN sent[q] :
    sent[p][i].msg.mk = sent[q][j].msg.mk => p = q /\ i = j
FreshKeysMixedIn ==                  \* R05
  \A p \in Parties :
    /\ st[p].made = 1 + Cardinality(Known(p))
    /\ st[p].est => /\ st[p].own = Key(p, st[p].made)
                    /\ st[p].cks = st[p].root
                    /\ st[p].root[Len(st[p].root)] = DH(st[p].own, st[p].peer)
                    /\ Len(st[p].root) = 2 * Cardinality(Known(p)) + (IF p = "B" THEN 1 ELSE 0)
HeadersTruthful ==                   \* R06
  \A p \in Parties : \A i \in DOMAIN sent[p] :
    LET m     == sent[p][i].msg
        of(k) == Cardinality({j \in DOMAIN sent[p] : sent[p][j].msg.pk = k})
    IN  /\ \E c \in 1..st[p].made : m.pk = Key(p, c) /\ m.pn = of(Key(p, c - 1))
        /\ m.n = Cardinality({j \in 1..(i - 1) : sent[p][j].msg.pk = m.pk})
        /\ m.n > 0 => sent[p][i - 1].msg.pk = m.pk
==============================================================================
