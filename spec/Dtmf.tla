-------------------------------- MODULE Dtmf --------------------------------
(* Telephone events (package dtmf): the encoding of an event, and the sender   *)
(* that plays a string of digits into an audio stream and an RTP stream, one   *)
(* step every 20 ms.  The RTP side is the specification RtpOut.                *)
EXTENDS RtpOut, FiniteSets, TLC

\* ------------------------------------------------------------ events
Chars == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 42, 35, 97, 98, 99, 100>>   \* 0-9 * # a-d
CodeOf(c) == IF \E i \in 1..16 : Chars[i] = c THEN (CHOOSE i \in 1..16 : Chars[i] = c) - 1 ELSE -1
DigitOf(code) == IF code < 16 THEN Chars[code + 1] ELSE 0
LowHz == <<697, 770, 852, 941>>
HighHz == <<1209, 1336, 1477, 1633>>
\* the keypad, row by row
Keys == <<49, 50, 51, 97, 52, 53, 54, 98, 55, 56, 57, 99, 42, 48, 35, 100>>
HzOf(c) == IF CodeOf(c) < 0 THEN <<>>
           ELSE LET i == (CHOOSE i \in 1..16 : Keys[i] = c) - 1 IN <<LowHz[(i \div 4) + 1], HighHz[(i % 4) + 1]>>

\* an event [code, digit, vol, end, dur] as 4 bytes; a digit stands for its code
Encode(ev) == << IF ev.digit # 0 THEN CodeOf(ev.digit) ELSE ev.code,
                 (ev.vol % 64) + (IF ev.end THEN 128 ELSE 0), ev.dur \div 256, ev.dur % 256 >>
Decode(b) == [code |-> b[1], digit |-> DigitOf(b[1]), vol |-> b[2] % 64, end |-> b[2] >= 128, dur |-> b[3] * 256 + b[4]]

\* ------------------------------------------------------------ the sender
Wait == 119              \* 'w'
ToneTicks == 13          \* 250 ms in steps of 20 ms
WaitTicks == 25
Frame == 160             \* timestamp units in 20 ms
ToneUnits == 2000
WaitUnits == 4000

\* on: sending; out: which outputs there are; digits: still to come; kind: what is being played
DInit(audio, events) ==
    [ on |-> FALSE, audio |-> audio, events |-> events, digits |-> <<>>, kind |-> "none", code |-> 0, left |-> 0, tick |-> 0,
      failA |-> FALSE, failAt |-> -1, rtp |-> OInit, ret |-> "", frame |-> <<>>, pkts |-> <<>>, hist |-> <<>> ]

Quiet(d) == [d EXCEPT !.frame = <<>>, !.pkts = <<>>, !.ret = "", !.hist = <<>>]

Write1(d, ts, digits) ==
    [Quiet(d) EXCEPT !.on = TRUE, !.digits = digits, !.kind = "none", !.left = 0, !.tick = 0,
                     !.rtp = IF d.events THEN Reset(@, d.ek, ts) ELSE @]

\* stream time passes; only the event stream's
Pass(d, n) == IF d.events THEN [d EXCEPT !.rtp = Delay(@, d.ek, n)] ELSE d

\* the current tone or pause has ended: what comes next
Next1(d) ==
    IF d.kind = "tone" THEN Pass([d EXCEPT !.kind = "pause", !.left = ToneTicks], ToneUnits)
    ELSE IF d.digits = <<>> THEN [d EXCEPT !.on = FALSE, !.ret = "nil"]
    ELSE LET c == d.digits[1] r == [d EXCEPT !.digits = Tail(@)] IN
         IF c = Wait THEN Pass([r EXCEPT !.kind = "pause", !.left = WaitTicks], WaitUnits)
         ELSE [r EXCEPT !.kind = "tone", !.left = ToneTicks, !.code = c]

Stop(d, why) == [d EXCEPT !.on = FALSE, !.ret = why]

\* a packet for stream k; the one after failAt others is refused by the connection
Send(d, k, inc, m, p) ==
    LET n == Write(IF d.failAt = 0 THEN SetFail(d.rtp, TRUE) ELSE d.rtp, k, inc, m, p)
        d1 == [d EXCEPT !.failAt = IF @ < 0 THEN @ ELSE @ - 1, !.rtp = IF d.failAt = 0 THEN SetFail(n, FALSE) ELSE n]
    IN  IF n.err THEN Stop(d1, "rtp") ELSE [d1 EXCEPT !.pkts = @ \o n.pkts]

Sound(d) ==
    IF ~d.audio THEN d
    ELSE IF d.failA THEN Stop(d, "audio")
    ELSE LET hz == IF d.kind = "tone" THEN HzOf(d.code) ELSE <<>>
             d1 == [d EXCEPT !.frame = <<hz>>] IN
         IF d.ak = 0 THEN d1 ELSE Send(d1, d.ak, TRUE, FALSE, <<>>)

RECURSIVE Repeat(_, _, _, _)
Repeat(d, p, m, n) ==
    IF n = 0 \/ ~d.on THEN d
    ELSE Repeat(Send(d, d.ek, FALSE, m, p), p, m, n - 1)

Signal(d) ==
    IF ~d.on \/ ~d.events \/ d.kind # "tone" \/ CodeOf(d.code) < 0 THEN d
    ELSE LET played == ToneTicks - d.left + 1
             end    == d.left = 1
             d1     == Repeat(d, <<CodeOf(d.code), end, played * Frame>>, d.left = ToneTicks, IF end THEN 3 ELSE 1)
         IN  IF end /\ d1.on THEN Pass(d1, ToneUnits) ELSE d1

Tick(d0) ==
    LET d  == Quiet(d0)
        d1 == IF d.on /\ d.left = 0 THEN Next1(d) ELSE d
    IN  IF ~d1.on THEN d1
        ELSE LET d2 == Signal(Sound(d1))
             IN  IF d2.on THEN [d2 EXCEPT !.left = @ - 1, !.tick = @ + 1, !.hist = <<d2.kind, d2.code, d2.left>>] ELSE d2

Cancel(d) == IF d.on THEN Stop(Quiet(d), "cancel") ELSE Quiet(d)
FailAudio(d, on) == [Quiet(d) EXCEPT !.failA = on]
FailRtp(d, on) == [Quiet(d) EXCEPT !.rtp = SetFail(@, on), !.failAt = -1]
FailRtpAt(d, n) == [Quiet(d) EXCEPT !.failAt = n]

\* outputs: mode of the audio stream ("none", "pcm", "rtp": over the same connection), whether there are events
Create(mode, events) ==
    LET d == DInit(mode # "none", events) @@ [ak |-> IF mode = "rtp" THEN 1 ELSE 0, ek |-> IF mode = "rtp" THEN 2 ELSE 1]
        r == IF mode = "rtp" THEN NewStream(OInit, 0, Frame) ELSE OInit
    IN  [d EXCEPT !.rtp = NewStream(r, 101, Frame)]

DApply(d, e) ==
    CASE e.ev = "open"   -> Create(e.mode, e.events)
      [] e.ev = "write"  -> Write1(d, e.ts, e.digits)
      [] e.ev = "tick"   -> Tick(d)
      [] e.ev = "cancel" -> Cancel(d)
      [] e.ev = "faila"  -> FailAudio(d, e.on)
      [] e.ev = "failr"  -> IF "at" \in DOMAIN e THEN FailRtpAt(d, e.at) ELSE FailRtp(d, e.on)
=============================================================================
