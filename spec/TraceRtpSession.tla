--------------------------- MODULE TraceRtpSession ---------------------------
EXTENDS RtpSession, TraceDet

D(e) == [kind |-> e.kind, ssrc |-> e.ssrc, id |-> e.id, len |-> e.len, size |-> e.size]

\* after Close a reader may still get what was queued, or the end of the stream
SApply(x, e) ==
    CASE e.ev = "inject" -> Inject(x, D(e))
      [] e.ev = "accept" -> Accept(x)
      [] e.ev = "read"   -> IF x.closed /\ e.o.reads = <<Eof(e.k + 1)>> THEN ReadEnd(x, e.k + 1)
                            ELSE Read(x, e.k + 1, e.cap)
      [] e.ev = "send"   -> Send(x, D(e))
      [] e.ev = "close"  -> SClose(x)
      [] e.ev = "sleep"  -> SBegin(x)

\* completed reads, by stream and packet: readers of one stream end in any order
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[3] < b[3] \/ (a[3] = b[3] /\ a[2] < b[2])))

SStep(x, e) == LET n == SApply(x, e)
               IN [st |-> n, obs |-> [reads |-> SortSeq(n.reads, Before), acc |-> n.acc, sent |-> n.sent, whole |-> TRUE,
                                      serr |-> e.ev = "send" /\ x.closed]]
SInitOf(e) == SInit
Inv == l > 1 => SInvAccounted(s) /\ SInvOne(s) /\ SInvOwn(s) /\ SInvRead(s) /\ SInvClosed(s)
=============================================================================
