-------------------------------- MODULE Call --------------------------------
(* A whole call: two ends that negotiate (SDP), speak and send digits (codec,  *)
(* RTP stream, session, SRTP), and hear each other through a network that      *)
(* loses, repeats, reorders and delays packets (session, jitter buffer, mux,   *)
(* codec).  Packets are counted per sender, from 1.                            *)
EXTENDS HandleJitter, FiniteSets

\* codecs by preference, and what one frame of 20 ms is: samples, bytes
Prefer == <<"G722/8000", "PCMU/8000", "PCMA/8000">>
Rate(c) == IF c = "G722/8000" THEN 16000 ELSE 8000
FrameBytes == 160
FrameTS == 160        \* the RTP clock of all of them is 8 kHz
EventName == "telephone-event/8000"
Elems(q) == {q[i] : i \in 1..Len(q)}

Chosen(a, b) == LET q == SelectSeq(Prefer, LAMBDA c : c \in a /\ c \in b) IN IF q = <<>> THEN "" ELSE q[1]
Verdict(a, b, ea, eb) == IF Chosen(a, b) = "" THEN "media"
                         ELSE IF (ea = "require" /\ eb = "none") \/ (ea = "none" /\ eb = "require") THEN "crypto" ELSE ""

\* one end: pk: packets sent [kind, sn, ts, m, dig]; said: frames written; ts: the next time stamp of its sound at least;
\* loose: digits have been sent; todo: digits to send; cur: the one being sent; j: its jitter handler; got: has a stream;
\* seen: packets of the other side that came in
SideInit == [pk |-> <<>>, said |-> 0, ts |-> 0, loose |-> FALSE, todo |-> <<>>, cur |-> <<>>,
             h |-> HStart(<<>>), got |-> FALSE, seen |-> {}, open |-> TRUE]
CallInit == [up |-> FALSE, codec |-> "", digits |-> FALSE, enc |-> FALSE, in |-> <<0, 0>>, out |-> <<0, 0>>, sd |-> <<SideInit, SideInit>>]
Setup(x, a, b, ea, eb, in, out) ==
    IF Verdict(a, b, ea, eb) # "" THEN x
    ELSE [x EXCEPT !.up = TRUE, !.codec = Chosen(a, b), !.digits = EventName \in a, !.enc = ea # "none" /\ eb # "none",
                   !.in = in, !.out = out]

\* is this the next packet of an end?
AudioOK(c, p) == /\ p.kind = "audio" /\ p.sn = Len(c.pk) % 65536 /\ ~p.m /\ p.len = FrameBytes
                 /\ IF c.loose THEN p.ts >= c.ts ELSE p.ts = c.ts
EventOK(c, p) == /\ p.kind = "digit" /\ p.sn = Len(c.pk) % 65536 /\ p.len = 4
                 /\ IF p.m THEN c.todo # <<>> /\ p.dig = c.todo[1]
                    ELSE c.cur # <<>> /\ p.dig = c.cur[1] /\ p.ts = c.cur[2]
Sends(c, p) == LET d == [c EXCEPT !.pk = Append(@, p)] IN
               IF p.kind = "audio" THEN [d EXCEPT !.ts = p.ts + FrameTS]
               ELSE IF p.m /\ c.todo # <<>> THEN [d EXCEPT !.todo = Tail(@), !.cur = <<p.dig, p.ts>>]
               ELSE d
RECURSIVE Sent(_, _)
\* <<the end after sending all of q, were they all right>>
Sent(c, q) == IF q = <<>> THEN <<c, TRUE>>
              ELSE LET r == Sent(Sends(c, q[1]), Tail(q)) IN <<r[1], (AudioOK(c, q[1]) \/ EventOK(c, q[1])) /\ r[2]>>
NAudio(q) == Len(SelectSeq(q, LAMBDA p : p.kind = "audio"))

\* packet i of the other end comes in
Arrive(x, k, i) ==
    LET c == x.sd[k] o == x.sd[3 - k] IN
    IF ~c.open \/ (x.enc /\ i \in c.seen) THEN <<x, <<>>>>
    ELSE LET r == HStep(c.h, [ev |-> "rtp", id |-> i, sn |-> o.pk[i].sn, pad |-> FALSE])
         IN <<[x EXCEPT !.sd[k] = [c EXCEPT !.h = r.st, !.got = TRUE, !.seen = @ \cup {i}]], r.obs.out>>
Elapse(c, t) == IF c.got /\ ~c.open THEN <<[c EXCEPT !.h.j.now = @ + t], <<>>>>
                ELSE LET r == HStep(c.h, [ev |-> "sleep", d |-> t]) IN <<[c EXCEPT !.h = r.st], r.obs.out>>
HangUp(c) == IF ~c.open THEN c ELSE [c EXCEPT !.open = FALSE, !.h = IF c.got THEN HStep(c.h, [ev |-> "close", d |-> 0]).st ELSE @]

\* the digits among packets handed over: <<time, packet>>; a digit is heard by its first packet
DigitsIn(o, q) == LET d == SelectSeq(q, LAMBDA y : o.pk[y[2]].kind = "digit" /\ o.pk[y[2]].m) IN [i \in 1..Len(d) |-> o.pk[d[i][2]].dig]
Frames(o, q) == Len(SelectSeq(q, LAMBDA y : o.pk[y[2]].kind = "audio"))
Ends(c) == <<~c.open /\ c.got, IF ~c.open /\ c.got THEN 1 ELSE 0, ~c.open>>
=============================================================================
