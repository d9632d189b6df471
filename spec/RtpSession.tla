----------------------------- MODULE RtpSession -----------------------------
(* A session over a datagram connection (package rtp): packets are told apart  *)
(* by SSRC.  AcceptStream reads from the connection until an unknown SSRC      *)
(* shows up; meanwhile it hands packets of known streams to their readers, or  *)
(* queues them (10 packets, the newest one is dropped when that is full).      *)
(* Several readers may wait for one stream: each packet goes to one of them.   *)
EXTENDS Integers, Sequences, TLC

QueueLen == 10
MTU == 1500

SInit == [ conn |-> <<>>, closed |-> FALSE, accepting |-> FALSE, streams |-> <<>>,
           acc |-> <<>>, reads |-> <<>>, sent |-> <<>>,
           dropped |-> 0, taken |-> 0, delivered |-> 0 ]

SBegin(s) == [s EXCEPT !.acc = <<>>, !.reads = <<>>, !.sent = <<>>]

Find(s, ssrc) == LET ks == {k \in 1..Len(s.streams) : s.streams[k].ssrc = ssrc}
                 IN IF ks = {} THEN 0 ELSE CHOOSE k \in ks : TRUE

Min2(a, b) == IF a < b THEN a ELSE b

\* what a reader of k gets for packet d: stream, bytes copied, packet; eof: no packet
Got(k, cap, d) == <<k - 1, Min2(cap, d.len), d.id>>
Eof(k) == <<k - 1, 0, -1>>

\* a datagram can be used if it is a whole RTP packet
Usable(d) == d.kind = "rtp" /\ d.size <= MTU

Deliver(s, k, d) ==
    LET st == s.streams[k] IN
    IF st.reading > 0
    THEN [s EXCEPT !.streams[k].reading = @ - 1, !.reads = Append(@, Got(k, st.cap, d)), !.delivered = @ + 1]
    ELSE IF Len(st.q) < QueueLen THEN [s EXCEPT !.streams[k].q = Append(@, d)]
    ELSE [s EXCEPT !.dropped = @ + 1]

RECURSIVE Pump(_)
Pump(s) ==
    IF ~s.accepting \/ s.conn = <<>> THEN s
    ELSE LET d  == s.conn[1]
             s1 == [s EXCEPT !.conn = Tail(@)]
             k  == Find(s, d.ssrc)
         IN  IF d.kind = "fault" THEN [s1 EXCEPT !.accepting = FALSE, !.acc = Append(@, -1)]
             ELSE IF ~Usable(d) THEN Pump(s1)
             ELSE LET s2 == [s1 EXCEPT !.taken = @ + 1] IN
                  IF k # 0 THEN Pump(Deliver(s2, k, d))
                  ELSE LET n == Len(s.streams) + 1 IN
                       Deliver([s2 EXCEPT !.accepting = FALSE,
                                          !.streams = Append(@, [ssrc |-> d.ssrc, q |-> <<>>, reading |-> 0, cap |-> 0]),
                                          !.acc = Append(@, d.ssrc)], n, d)

Inject(s, d) == LET s1 == SBegin(s) IN IF s.closed THEN s1 ELSE Pump([s1 EXCEPT !.conn = Append(@, d)])
Accept(s) == LET s1 == SBegin(s) IN
             IF s.closed THEN [s1 EXCEPT !.acc = <<-1>>] ELSE Pump([s1 EXCEPT !.accepting = TRUE])

ReadQueued(s, k, cap) ==
    LET s1 == SBegin(s) st == s.streams[k]
    IN [s1 EXCEPT !.streams[k].q = Tail(@), !.reads = <<Got(k, cap, st.q[1])>>, !.delivered = @ + 1]
ReadEnd(s, k) == [SBegin(s) EXCEPT !.reads = <<Eof(k)>>]
ReadWait(s, k, cap) == [SBegin(s) EXCEPT !.streams[k].reading = @ + 1, !.streams[k].cap = cap]

Read(s, k, cap) ==
    IF s.streams[k].q # <<>> THEN ReadQueued(s, k, cap)
    ELSE IF s.closed THEN ReadEnd(s, k)
    ELSE ReadWait(s, k, cap)

RECURSIVE EndReads(_, _)
EndReads(s, k) ==
    IF k > Len(s.streams) THEN s
    ELSE EndReads([s EXCEPT !.streams[k].reading = 0, !.reads = @ \o [i \in 1..s.streams[k].reading |-> Eof(k)]], k + 1)

SClose(s) ==
    LET s1 == SBegin(s) IN
    IF s.closed THEN s1
    ELSE EndReads([s1 EXCEPT !.closed = TRUE, !.accepting = FALSE, !.conn = <<>>,
                             !.acc = IF s.accepting THEN <<-1>> ELSE <<>>], 1)

Send(s, d) == [SBegin(s) EXCEPT !.sent = IF s.closed THEN <<>> ELSE <<d.id>>]

\* ------------------------------------------------------------ properties
RECURSIVE Queued(_, _)
Queued(s, k) == IF k > Len(s.streams) THEN 0 ELSE Len(s.streams[k].q) + Queued(s, k + 1)
SInvAccounted(s) == s.taken = s.delivered + Queued(s, 1) + s.dropped
SInvOne(s) == \A i, j \in 1..Len(s.streams) : s.streams[i].ssrc = s.streams[j].ssrc => i = j
SInvOwn(s) == \A k \in 1..Len(s.streams) : \A i \in 1..Len(s.streams[k].q) : s.streams[k].q[i].ssrc = s.streams[k].ssrc
SInvRead(s) == \A k \in 1..Len(s.streams) : s.streams[k].reading > 0 => (s.streams[k].q = <<>> /\ ~s.closed)
SInvClosed(s) == s.closed => ~s.accepting
SInvDrop(s) == s.dropped > 0 => \E k \in 1..Len(s.streams) : TRUE
=============================================================================
