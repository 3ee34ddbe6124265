------------------------------ MODULE HashBuffer -----------------------------
(* Design of the block buffering behind the streaming interface, with a       *)
(* symbolic compression function: what is compressed is recorded as it is.    *)
(* MD5 and SHA-1 compress a block as soon as it is full ("eager"); BLAKE2     *)
(* must keep the last block, full or not, until it knows whether more data    *)
(* follows ("lazy").  For every way of cutting the input into pieces, empty   *)
(* ones included, the blocks compressed and the rest are the input itself.    *)
EXTENDS Naturals, Sequences, SequencesExt
CONSTANTS B,            \* block size
          N,            \* length of the whole input
          MaxEmpty,     \* how many empty pieces a history may contain
          Lazy
VARIABLES fed, blocks, buf, empty, result
vars == <<fed, blocks, buf, empty, result>>

Input == [i \in 1..N |-> i]
Piece(n) == SubSeq(Input, fed + 1, fed + n)

(* the step of the code: top up the buffer, compress it, compress the full    *)
(* blocks of the rest, keep what remains                                      *)
Compressible(rest) == IF Lazy THEN Len(rest) > B ELSE Len(rest) >= B
RECURSIVE Absorb(_, _)
Absorb(bs, rest) == IF Compressible(rest)
                    THEN Absorb(Append(bs, SubSeq(rest, 1, B)), SubSeq(rest, B + 1, Len(rest)))
                    ELSE <<bs, rest>>

Init == fed = 0 /\ blocks = <<>> /\ buf = <<>> /\ empty = 0 /\ result = <<>>
Update(n) ==
  /\ result = <<>>
  /\ LET a == Absorb(blocks, buf \o Piece(n)) IN blocks' = a[1] /\ buf' = a[2]
  /\ fed' = fed + n
  /\ empty' = IF n = 0 THEN empty + 1 ELSE empty
  /\ empty' <= MaxEmpty
  /\ UNCHANGED result
Finish == /\ result = <<>>
          /\ result' = <<[b |-> Append(blocks, buf), total |-> fed]>>
          /\ UNCHANGED <<fed, blocks, buf, empty>>
Next == (\E n \in 0..(N - fed) : Update(n)) \/ Finish
Spec == Init /\ [][Next]_vars

Flatten(bs) == FoldLeft(LAMBDA x, y : x \o y, <<>>, bs)
(* nothing is lost, repeated or reordered *)
Faithful == Flatten(blocks) \o buf = SubSeq(Input, 1, fed)
Blocks   == \A i \in 1..Len(blocks) : Len(blocks[i]) = B
Held     == IF Lazy THEN Len(buf) <= B /\ (fed > 0 => buf # <<>>) ELSE Len(buf) < B
(* the result does not depend on the pieces: it is the canonical division     *)
Canonical == LET k == IF Lazy THEN (IF fed = 0 THEN 0 ELSE (fed - 1) \div B) ELSE fed \div B
             IN  [b |-> Append([i \in 1..k |-> SubSeq(Input, B*(i-1) + 1, B*i)],
                               SubSeq(Input, B*k + 1, fed)), total |-> fed]
Result   == result # <<>> => result[1] = Canonical
==============================================================================
