-------------------------------- MODULE Srtp --------------------------------
(* An SRTP session (package srtp): packets that were protected with the keys   *)
(* of the receiver reach its readers once, unchanged; nothing else does.       *)
EXTENDS Integers, Sequences

\* sent: what went to the network; got: which of it has been delivered; keys: both ends agree
\* lazy: nobody accepts streams
PInit(keys, lazy) == [keys |-> keys, lazy |-> lazy, sent |-> <<>>, got |-> {}, out |-> <<>>, closed |-> FALSE]
PBegin(x) == [x EXCEPT !.out = <<>>]
PSend(x, e) == [PBegin(x) EXCEPT !.sent = Append(@, [who |-> e.who, ssrc |-> e.ssrc, id |-> e.id, seq |-> e.seq, len |-> e.len])]
PNet(x, k, whole) ==
    IF ~x.closed /\ x.keys /\ ~x.lazy /\ whole /\ x.sent[k + 1].who = 0 /\ k \notin x.got
    THEN LET d == x.sent[k + 1] IN [PBegin(x) EXCEPT !.got = @ \cup {k}, !.out = <<<<d.ssrc, d.id, d.seq, d.len>>>>]
    ELSE PBegin(x)
PApply(x, e) ==
    CASE e.ev = "send" -> PSend(x, e)
      [] e.ev = "net"  -> PNet(x, e.k, e.alter < 0 /\ e.cut = 0)
      [] e.ev = "close" -> [PBegin(x) EXCEPT !.closed = TRUE]
\* only what was sent with the right keys, and once
PInv(x) == /\ \A k \in x.got : k < Len(x.sent) /\ x.sent[k + 1].who = 0
           /\ x.out # <<>> => x.keys /\ ~x.closed
=============================================================================
