---------------------------- MODULE MCRtpSession ----------------------------
EXTENDS RtpSession, ModelDet
CONSTANTS SSRCs, Kinds, MaxReaders
SOps(x) ==
    (IF x.closed THEN {} ELSE
       {[ev |-> "inject", kind |-> k, ssrc |-> c, id |-> 0, len |-> 3, size |-> 15] : k \in Kinds, c \in SSRCs})
    \cup (IF x.accepting THEN {} ELSE {[ev |-> "accept"]})
    \cup {[ev |-> "read", k |-> k - 1, cap |-> 100] : k \in {j \in 1..Len(x.streams) : x.streams[j].reading < MaxReaders /\ (x.closed => x.streams[j].q = <<>>)}}
    \cup {[ev |-> "close"]}
SMApply(x, e) ==
    CASE e.ev = "inject" -> Inject(x, [kind |-> e.kind, ssrc |-> e.ssrc, id |-> e.id, len |-> e.len, size |-> e.size])
      [] e.ev = "accept" -> Accept(x)
      [] e.ev = "read"   -> Read(x, e.k + 1, e.cap)
      [] e.ev = "close"  -> SClose(x)
SStarts == {SInit}
SView(x) == [x EXCEPT !.acc = <<>>, !.reads = <<>>, !.dropped = 0, !.taken = 0, !.delivered = 0]
SGood(x) == SInvAccounted(x) /\ SInvOne(x) /\ SInvOwn(x) /\ SInvRead(x) /\ SInvClosed(x)
=============================================================================
