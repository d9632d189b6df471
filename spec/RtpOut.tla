------------------------------- MODULE RtpOut -------------------------------
(* Outgoing RTP (package rtp): one SeqWriter numbers all packets of a          *)
(* connection; its streams keep their own timestamps, which never fall more    *)
(* than 25 frames behind the most recent one of all streams.                   *)
EXTENDS Integers, Sequences

ResetFrames == 25
SeqSpace == 65536

\* the lowest timestamp, less than which there is nothing, is lo: TLC's numbers do not reach all of them
OInitAt(lo) ==
         [ lo |-> lo, max |-> lo, seq |-> 0, fail |-> FALSE, streams |-> <<>>,
           pkts |-> <<>>, err |-> FALSE, val |-> 0,       \* observations of the current call
           sent |-> 0, mono |-> TRUE, high |-> TRUE ]     \* history for the invariants
OInit == OInitAt(0)

OBegin(s) == [s EXCEPT !.pkts = <<>>, !.err = FALSE, !.val = 0]

\* the timestamp to use for ts, and the new most recent timestamp
CurTS(max, ts, inc) ==
    IF max > ts + ResetFrames * inc THEN [ts |-> max, max |-> max]
    ELSE IF max >= ts THEN [ts |-> ts, max |-> max]
    ELSE [ts |-> ts, max |-> ts]

\* one packet: typ, ts, marker, payload
Emit(s, typ, ts, marker, payload) ==
    IF s.fail THEN [s EXCEPT !.err = TRUE]
    ELSE [s EXCEPT !.pkts = Append(@, <<s.seq, ts, typ, marker, payload>>),
                   !.seq = (@ + 1) % SeqSpace, !.sent = @ + 1]

NewStream(s, typ, dur) ==
    [OBegin(s) EXCEPT !.streams = Append(@, [typ |-> typ, dur |-> dur, ts |-> s.lo, fol |-> FALSE, last |-> s.lo])]

Write(s0, k, inc, marker, payload) ==
    LET s  == OBegin(s0)
        st == s.streams[k]
        c  == IF st.fol THEN [ts |-> st.ts, max |-> s.max] ELSE CurTS(s.max, st.ts, st.dur)
        s1 == Emit([s EXCEPT !.max = c.max], st.typ, c.ts, marker, payload)
    IN  IF s1.err THEN [s1 EXCEPT !.streams[k].ts = c.ts]
        ELSE [s1 EXCEPT !.streams[k] = [st EXCEPT !.ts = c.ts + (IF inc THEN st.dur ELSE 0), !.fol = ~inc, !.last = c.ts],
                        !.mono = @ /\ c.ts >= st.last,
                        !.high = @ /\ c.ts <= c.max]

Delay(s0, k, d) ==
    LET s  == OBegin(s0)
        st == s.streams[k]
        c  == CurTS(s.max, st.ts + d, st.dur)
    IN  [s EXCEPT !.max = c.max, !.streams[k] = [st EXCEPT !.ts = c.ts, !.fol = FALSE]]

Reset(s, k, ts) == [OBegin(s) EXCEPT !.streams[k] = [@ EXCEPT !.ts = ts, !.fol = FALSE, !.last = s.lo]]
Get(s, k) == [OBegin(s) EXCEPT !.val = s.streams[k].ts]
Raw(s, typ, ts, marker, payload) == Emit(OBegin(s), typ, ts, marker, payload)
Ask(s0, ts, inc) == LET s == OBegin(s0) c == CurTS(s.max, ts, inc) IN [s EXCEPT !.max = c.max, !.val = c.ts]
SetFail(s, on) == [OBegin(s) EXCEPT !.fail = on]

RECURSIVE Burst(_, _)
Burst(s, n) == [OBegin(s) EXCEPT !.pkts = [i \in 1..n |-> (s.seq + i - 1) % SeqSpace],
                                 !.seq = (@ + n) % SeqSpace, !.sent = @ + n]

OApply(s, e) ==
    CASE e.ev = "stream" -> NewStream(s, e.typ, e.dur)
      [] e.ev = "write"  -> Write(s, e.k + 1, TRUE, e.m, e.p)
      [] e.ev = "cur"    -> Write(s, e.k + 1, FALSE, e.m, e.p)
      [] e.ev = "media"  -> Write(s, e.k + 1, TRUE, FALSE, e.p)
      [] e.ev = "delay"  -> Delay(s, e.k + 1, e.d)
      [] e.ev = "delayn" -> IF e.n < 0 THEN OBegin(s) ELSE Delay(s, e.k + 1, e.n * s.streams[e.k + 1].dur)
      [] e.ev = "setts"  -> Reset(s, e.k + 1, e.ts)
      [] e.ev = "get"    -> Get(s, e.k + 1)
      [] e.ev = "raw"    -> Raw(s, e.typ, e.ts, e.m, e.p)
      [] e.ev = "curts"  -> Ask(s, e.ts, e.inc)
      [] e.ev = "fail"   -> SetFail(s, e.on)
      [] e.ev = "burst"  -> Burst(s, e.n)

\* numbers are consecutive; time never goes back within a stream (unless it is reset)
OInvSeq(s) == s.seq = s.sent % SeqSpace
OInvMono(s) == s.mono
OInvHigh(s) == s.high
=============================================================================
