------------------------------- MODULE Jitter -------------------------------
(* The RTP jitter buffer (package jitter): a reordering queue that releases    *)
(* complete samples in sequence order and gives up on missing packets after a *)
(* configurable latency.  One record of state, one operator per public call;  *)
(* the background timer is part of Advance (the passing of time).             *)
(*                                                                            *)
(* A packet is [id, sn, at, st, en, pad, dis]: identity, sequence number,     *)
(* arrival time, first/last packet of a sample, padding only, and whether it  *)
(* starts a new (discontinuous) run of sequence numbers.                      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS M,       \* size of the sequence number space (65536)
          R        \* two sequence numbers closer than R belong to one run (3000)

Before(a, b) == (b - a) % M < M \div 2       \* a is b, or precedes it
WithinRange(a, b) == (a - b) % M < R \/ (b - a) % M < R
NextSN(a) == (a + 1) % M

NoTimer == -1

InitState(lat, now) ==
    [ now |-> now, lat |-> lat, closed |-> FALSE, tm |-> now + lat,
      init |-> FALSE, prev |-> 0, q |-> <<>>,
      \* counters: pushed, padding pushed, lost, dropped, popped, samples
      pushed |-> 0, padpushed |-> 0, lost |-> 0, dropped |-> 0, popped |-> 0, samples |-> 0,
      \* observations of the current call: delivered samples, loss callbacks
      out |-> <<>>, cbs |-> <<>>,
      \* history used only by the invariants
      padign |-> 0, last |-> -1, orderOK |-> TRUE, shapeOK |-> TRUE, gaps |-> 0, jumps |-> FALSE ]

Cb(s) == [s EXCEPT !.cbs = Append(@, <<s.now, s.lost, s.dropped>>)]

\* ------------------------------------------------------------ completeness
RECURSIVE ChainEnd(_, _)
\* index of the packet which ends the sample starting at the head, 0 if it is not here yet
ChainEnd(q, i) ==
    IF q[i].en THEN i
    ELSE IF i = Len(q) \/ q[i + 1].sn # NextSN(q[i].sn) THEN 0
    ELSE ChainEnd(q, i + 1)

SampleEnd(q) == IF q = <<>> \/ ~q[1].st THEN 0 ELSE ChainEnd(q, 1)
Complete(q) == SampleEnd(q) > 0

\* ------------------------------------------------------------ queue order
InsertAt(q, p, i) == SubSeq(q, 1, i - 1) \o <<p>> \o SubSeq(q, i, Len(q))  \* p becomes q[i]

RECURSIVE TailSearch(_, _, _)
\* walk from position i towards the head: <<position after which to insert, discontinuity>>
TailSearch(q, sn, i) ==
    LET far == ~WithinRange(sn, q[i].sn) IN
    IF ~Before(sn, q[i].sn) \/ far THEN <<i, far>> ELSE TailSearch(q, sn, i - 1)

RECURSIVE HeadSearch(_, _, _)
HeadSearch(q, sn, i) ==
    IF Before(sn, q[i].sn) \/ ~WithinRange(sn, q[i].sn) THEN i ELSE HeadSearch(q, sn, i + 1)

Enqueue(s, p) ==
    LET q == s.q
        far == ~s.init \/ ~WithinRange(p.sn, s.prev)
        d(x) == [p EXCEPT !.dis = x /\ p.st]
        H == q[1].sn
        T == q[Len(q)].sn
    IN  IF q = <<>> THEN <<d(far)>>
        ELSE IF Before(p.sn, H) /\ WithinRange(p.sn, H) THEN <<d(far)>> \o q
        ELSE IF ~Before(p.sn, T) /\ WithinRange(p.sn, T) THEN Append(q, d(FALSE))
        ELSE IF WithinRange(p.sn, T) THEN
             LET r == TailSearch(q, p.sn, Len(q) - 1) IN InsertAt(q, d(r[2]), r[1] + 1)
        ELSE IF WithinRange(p.sn, H) THEN InsertAt(q, d(FALSE), HeadSearch(q, p.sn, 2))
        ELSE Append(q, d(TRUE))

\* the packet does not belong to the run of sequence numbers seen so far
Jump(s, p) == \/ s.init /\ ~WithinRange(p.sn, s.prev)
              \/ \E i \in 1..Len(s.q) : ~WithinRange(p.sn, s.q[i].sn)

Buffered(s, sn) == \E i \in 1..Len(s.q) : s.q[i].sn = sn

Drop(s, p) == IF p.pad THEN [s EXCEPT !.padign = @ + 1]
              ELSE Cb([s EXCEPT !.dropped = @ + 1])

Accept(s0, p) ==
    LET s == [s0 EXCEPT !.pushed = @ + 1, !.padpushed = @ + (IF p.pad THEN 1 ELSE 0)]
    IN  IF p.pad /\ ~s.init THEN [s EXCEPT !.padign = @ + 1]
        ELSE IF s.init /\ Before(p.sn, s.prev) THEN Drop(s, p)     \* too late
        ELSE IF Buffered(s, p.sn) THEN Drop(s, p)                  \* duplicate
        ELSE [s EXCEPT !.q = Enqueue(s, p), !.jumps = @ \/ Jump(s, p)]

\* ------------------------------------------------------------ leaving the queue
Gap(s) == (s.q[1].sn - s.prev - 1) % M
Expired(s) == s.q[1].at <= s.now - s.lat
InOrder(s) == s.q[1].dis \/ ~s.init \/ s.q[1].sn = NextSN(s.prev)

RECURSIVE DropIncomplete(_, _)
\* drops packets at the head that are not part of a complete sample
DropIncomplete(s, force) ==
    IF s.q = <<>> \/ Complete(s.q) \/ ~(force \/ Expired(s)) THEN s
    ELSE LET g == IF s.init /\ ~s.q[1].dis THEN Gap(s) ELSE 0 IN
         DropIncomplete([s EXCEPT !.lost = @ + g, !.gaps = @ + g, !.prev = s.q[1].sn,
                                  !.q = Tail(@), !.dropped = @ + 1], force)

Media(sample) == SelectSeq(sample, LAMBDA p : ~p.pad)
Ids(sample) == [i \in 1..Len(sample) |-> sample[i].id]

RECURSIVE Sorted(_, _)
Sorted(last, ps) ==
    IF ps = <<>> THEN TRUE
    ELSE /\ \/ last = -1
            \/ ~WithinRange(ps[1].sn, last)
            \/ ps[1].sn # last /\ Before(last, ps[1].sn)
         /\ Sorted(ps[1].sn, Tail(ps))

Pop(s) ==
    LET n == SampleEnd(s.q)
        whole == SubSeq(s.q, 1, n)
        m == Media(whole)
        ids == Ids(m)
    IN  [s EXCEPT !.q = SubSeq(@, n + 1, Len(@)), !.prev = whole[n].sn, !.init = TRUE,
                  !.popped = @ + n, !.samples = @ + 1,
                  !.out = IF m = <<>> THEN @ ELSE Append(@, <<s.now, ids>>),
                  !.last = IF m = <<>> THEN @ ELSE m[Len(m)].sn,
                  !.orderOK = @ /\ Sorted(s.last, m),
                  !.shapeOK = @ /\ whole[1].st /\ whole[n].en
                                /\ \A i \in 1..n-1 : ~whole[i].en /\ whole[i+1].sn = NextSN(whole[i].sn)]

RECURSIVE PopAll(_, _)
\* pops samples that are in order, or whose predecessors are overdue; returns <<state, loss>>
PopAll(s, loss) ==
    IF ~Complete(s.q) THEN <<s, loss>>
    ELSE IF InOrder(s) THEN PopAll(Pop(s), loss)
    ELSE IF Expired(s) THEN PopAll(Pop([s EXCEPT !.lost = @ + Gap(s), !.gaps = @ + Gap(s)]), TRUE)
    ELSE <<s, loss>>

Rearm(s) == IF s.q = <<>> THEN s
            ELSE [s EXCEPT !.tm = IF s.q[1].at + s.lat > s.now THEN s.q[1].at + s.lat ELSE s.now]

PopReady(s) ==
    LET s1 == DropIncomplete(s, FALSE)
        s2 == IF s1.dropped # s.dropped THEN Cb(s1) ELSE s1
        r  == PopAll(s2, FALSE)
        s3 == IF r[2] THEN Cb(r[1]) ELSE r[1]
    IN  Rearm(s3)

Begin(s) == [s EXCEPT !.out = <<>>, !.cbs = <<>>]

\* ------------------------------------------------------------ public calls
Push1(s, p) ==
    LET s1 == Accept(s, [p EXCEPT !.dis = FALSE])
    IN  IF s1.q = <<>> THEN s1 ELSE PopReady(s1)
Push(s, p) == Push1(Begin(s), p)
RECURSIVE PushAll(_, _)
PushAll(s, ps) == IF ps = <<>> THEN s ELSE PushAll(Push1(s, ps[1]), Tail(ps))
\* several packets in one call: one after the other
Batch(s, ps) == PushAll(Begin(s), ps)

RECURSIVE FlushAll(_, _)
FlushAll(s, loss) ==
    IF ~Complete(s.q) THEN <<s, loss>>
    ELSE LET g  == IF InOrder(s) THEN 0 ELSE Gap(s)
             s1 == Pop([s EXCEPT !.lost = @ + g, !.gaps = @ + g])
         IN  FlushAll(DropIncomplete(s1, TRUE), loss \/ ~InOrder(s))

Flush(s) ==
    LET s0 == Begin(s)
        s1 == DropIncomplete(s0, TRUE)
        r  == FlushAll(s1, FALSE)
    IN  IF r[2] \/ r[1].dropped # s0.dropped THEN Cb(r[1]) ELSE r[1]

UpdateLatency(s, lat) == Rearm([Begin(s) EXCEPT !.lat = lat])

Close(s) == [Begin(s) EXCEPT !.closed = TRUE, !.tm = NoTimer]

RECURSIVE RunUntil(_, _)
\* the timer fires at its deadline, releases what is due and is set for the new head
RunUntil(s, t) ==
    IF s.closed \/ s.tm = NoTimer \/ s.tm > t THEN [s EXCEPT !.now = t]
    ELSE RunUntil(PopReady([s EXCEPT !.now = IF s.tm > s.now THEN s.tm ELSE s.now, !.tm = NoTimer]), t)

Advance(s, d) == RunUntil(Begin(s), s.now + d)

\* ------------------------------------------------------------ properties
\* C01: samples leave in sequence order (while the stream does not jump), and only whole samples.
InvOrder(s) == (s.jumps \/ s.orderOK) /\ s.shapeOK
\* C01: what can be delivered is never held back.
InvEager(s) == s.q = <<>> \/ ~(Complete(s.q) /\ InOrder(s))
\* C02: every packet pushed is delivered, dropped, still buffered, or ignorable padding.
InvConserved(s) == s.pushed = s.popped + s.dropped + Len(s.q) + s.padign
InvLost(s) == s.lost = s.gaps
\* C02: no two buffered packets share a sequence number, none is behind what left already.
InvQueue(s) ==
    /\ \A i, j \in 1..Len(s.q) : s.q[i].sn = s.q[j].sn => i = j
    /\ Cardinality({s.q[i].id : i \in 1..Len(s.q)}) = Len(s.q)
\* C03: while open, nothing stays at the head of the queue past its deadline.
\* (a timer that is due but did not run yet will remove it before time passes.)
InvFresh(s) == s.closed \/ s.q = <<>> \/ s.now < s.q[1].at + s.lat \/ s.tm <= s.now
InvTimer(s) == s.closed \/ s.q = <<>> \/ (s.tm # NoTimer /\ (s.tm <= s.q[1].at + s.lat \/ s.tm <= s.now))
=============================================================================
