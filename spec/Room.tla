-------------------------------- MODULE Room --------------------------------
(* A conference: callers send RTP packets of sound; each has a jitter buffer,  *)
(* a decoder and an input of one mixer, and what is mixed goes out as one RTP  *)
(* stream.  A composition of HandleJitter and Mixer.  Packets of a caller are  *)
(* counted from 1; times are in microseconds.                                  *)
EXTENDS HandleJitter, Mixer

RInit(cfg) == [m |-> MixInit(cfg), cs |-> <<>>]

\* a caller: h: the jitter handler, at: when it began, in: the input, pk: what the packets hold
RJoin(x) ==
    IF x.m.stopped THEN [x EXCEPT !.m = MBegin(@)]
    ELSE [x EXCEPT !.m = MNewInput(@),
                   !.cs = Append(@, [h |-> HStart(<<>>), at |-> x.m.now, in |-> x.m.nin, pk |-> <<>>, open |-> TRUE])]

\* packet id of caller k gets to the mixer; one without sound (of another payload type) does not
Feed(x, k, id) == LET xs == x.cs[k].pk[id] IN
                  IF xs = <<>> THEN x ELSE [x EXCEPT !.m = [MWrite(@, x.cs[k].in, xs) EXCEPT !.out = x.m.out]]
RECURSIVE Feeds(_, _, _)
Feeds(x, k, q) == IF q = <<>> THEN x ELSE Feeds(Feed(x, k, q[1][2]), k, Tail(q))

\* a packet of caller k comes in; what a caller who left sends gets to an input nobody listens to
RRtp(x, k, sn, pad, xs) ==
    LET c == x.cs[k]
        id == Len(c.pk) + 1
        r == HStep(c.h, [ev |-> "rtp", id |-> id, sn |-> sn, pad |-> pad])
        y == [x EXCEPT !.m = MBegin(@), !.cs[k].pk = Append(@, xs)]
    IN  Feeds([y EXCEPT !.cs[k].h = r.st], k, r.obs.out)

\* <<time, caller, packet>> of all that the jitter buffers hand over, by time
RECURSIVE Slot(_, _), ByTime(_), All(_, _)
Slot(q, e) == IF q = <<>> \/ e[1] < q[1][1] THEN <<e>> \o q ELSE <<q[1]>> \o Slot(Tail(q), e)
ByTime(q) == IF q = <<>> THEN <<>> ELSE Slot(ByTime(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
All(x, rs) == IF rs = <<>> THEN <<>>
              ELSE LET k == Len(rs) o == rs[k].obs.out IN
                   All(x, SubSeq(rs, 1, k - 1)) \o [i \in 1..Len(o) |-> <<x.cs[k].at + o[i][1], k, o[i][2]>>]
RECURSIVE Play(_, _)
Play(x, q) == IF q = <<>> THEN x
              ELSE Play(Feed([x EXCEPT !.m = MixRun(@, q[1][1])], q[1][2], q[1][3]), Tail(q))
RSleep(x, d) ==
    LET rs == [k \in 1..Len(x.cs) |-> IF x.cs[k].open THEN HStep(x.cs[k].h, [ev |-> "sleep", d |-> d])
                                      ELSE [st |-> [x.cs[k].h EXCEPT !.j.now = @ + d], obs |-> [out |-> <<>>]]]
        y == Play([x EXCEPT !.m = MBegin(@), !.cs = [k \in 1..Len(rs) |-> [x.cs[k] EXCEPT !.h = rs[k].st]]], ByTime(All(x, rs)))
    IN  [y EXCEPT !.m = MixRun(@, x.m.now + d)]

\* the caller hangs up: its packets and its sound are gone
RLeave(x, k) ==
    IF ~x.cs[k].open THEN [x EXCEPT !.m = MBegin(@)]
    ELSE [x EXCEPT !.cs[k].open = FALSE, !.cs[k].h = HStep(@, [ev |-> "close", d |-> 0]).st, !.m = MRemove(@, x.cs[k].in)]
RStop(x) == [x EXCEPT !.m = MStop(@)]

\* the frames that came out
RFrames(x) == [i \in 1..Len(x.m.out) |-> x.m.out[i][2]]
RTimes(x) == [i \in 1..Len(x.m.out) |-> x.m.out[i][1]]
=============================================================================
