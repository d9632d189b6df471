-------------------------------- MODULE Mixer --------------------------------
(* The audio mixer (package mixer): every tick the queued samples of all       *)
(* inputs are summed into one output frame.  An input plays only after half of *)
(* its queue filled up, and again after it ran dry.  A late tick mixes several *)
(* frames at once, up to the depth of the input queues.                        *)
(*                                                                            *)
(* The mixing goroutine is busy while the output (or the output channel)       *)
(* blocks it; ticks that come meanwhile collapse into one pending tick.        *)
(* Times are in microseconds.                                                  *)
EXTENDS Integers, Sequences

MMin(a, b) == IF a < b THEN a ELSE b
MMax(a, b) == IF a > b THEN a ELSE b
Never == -1

\* cfg: sz (samples per frame), frames (queue depth in frames), tick, chan (0: no channel)
MixInit(cfg) ==
    [ sz |-> cfg.sz, frames |-> cfg.frames, bufmin |-> (cfg.frames \div 2 + 1) * cfg.sz, tick |-> cfg.tick,
      chan |-> cfg.chan, now |-> 0, next |-> cfg.tick, started |-> FALSE, last |-> 0,
      inputs |-> <<>>,            \* [id, q, buf]
      gone |-> <<>>,              \* removed inputs: nobody reads their queues
      nin |-> 0, stopped |-> FALSE, rest |-> <<>>,
      \* the mixing goroutine
      busy |-> FALSE, until |-> Never, left |-> 0, pend |-> FALSE, held |-> <<>>,
      \* the writer goroutine of an output channel
      wuntil |-> Never, queue |-> <<>>,
      \* the output: what a call to it will do
      delay |-> 0, fail |-> FALSE, wfail |-> FALSE,
      out |-> <<>>,
      tracks |-> 0, total |-> 0, restarts |-> 0, resets |-> 0,
      mixes |-> 0, timed |-> 0, jump |-> 0, zero |-> 0, neg |-> 0,
      insamples |-> 0, inframes |-> 0, dsamples |-> 0, dframes |-> 0,
      msamples |-> 0, mframes |-> 0, osamples |-> 0, oframes |-> 0,
      werr |-> 0, blocked |-> 0 ]

\* ------------------------------------------------------------ one frame
Zero(n) == [i \in 1..n |-> 0]
Clip(v) == IF v > 32767 THEN 32767 ELSE IF v < -32767 THEN -32767 ELSE v

\* what one input contributes: [in |-> input afterwards, got |-> samples, dry |-> ran dry]
Contribute(s, i) ==
    IF i.buf /\ Len(i.q) < s.bufmin THEN [in |-> i, got |-> <<>>, dry |-> FALSE]
    ELSE LET n == MMin(s.sz, Len(i.q)) IN
         IF n = 0 THEN [in |-> [i EXCEPT !.buf = TRUE], got |-> <<>>, dry |-> TRUE]
         ELSE [in |-> [i EXCEPT !.buf = FALSE, !.q = SubSeq(@, n + 1, Len(@))],
               got |-> SubSeq(i.q, 1, n), dry |-> FALSE]

RECURSIVE SumAt(_, _)
SumAt(gs, j) == IF gs = <<>> THEN 0
                ELSE (IF j <= Len(gs[1]) THEN gs[1][j] ELSE 0) + SumAt(Tail(gs), j)
RECURSIVE SumLen(_)
SumLen(gs) == IF gs = <<>> THEN 0 ELSE Len(gs[1]) + SumLen(Tail(gs))
Count(gs) == Len(SelectSeq(gs, LAMBDA g : g # <<>>))

\* [st |-> state with the frame's inputs consumed, frame |-> the frame]
MixFrame(s) ==
    LET cs == [i \in 1..Len(s.inputs) |-> Contribute(s, s.inputs[i])]
        gs == [i \in 1..Len(cs) |-> cs[i].got]
        dry == Len(SelectSeq(cs, LAMBDA c : c.dry))
    IN [frame |-> [j \in 1..s.sz |-> Clip(SumAt(gs, j))],
        st |-> [s EXCEPT !.inputs = [i \in 1..Len(cs) |-> cs[i].in],
                         !.restarts = @ + dry, !.mixes = @ + 1,
                         !.mframes = @ + Count(gs), !.msamples = @ + SumLen(gs),
                         !.oframes = @ + 1, !.osamples = @ + s.sz]]

\* ------------------------------------------------------------ output
Deliver(s, f) == [s EXCEPT !.out = Append(@, <<s.now, f>>)]
Failed(s, f) == IF f THEN [s EXCEPT !.werr = @ + 1] ELSE s

\* the writer goroutine takes f: busy with it for the delay
WriterTake(s, f) ==
    [Deliver(s, f) EXCEPT !.wuntil = s.now + s.delay, !.wfail = s.fail]

RECURSIVE MixN(_, _)
\* the mixing goroutine has n frames to go
MixN(s0, n) ==
    IF n = 0 THEN [s0 EXCEPT !.busy = FALSE, !.until = Never, !.left = 0]
    ELSE LET m == MixFrame(s0)
             s == m.st
             f == m.frame
         IN  IF s.chan = 0 THEN
                 IF s.delay = 0 THEN MixN(Failed(Deliver(s, f), s.fail), n - 1)
                 ELSE [Deliver(s, f) EXCEPT !.busy = TRUE, !.until = s.now + s.delay, !.left = n - 1, !.wfail = s.fail]
             ELSE IF s.wuntil = Never THEN MixN(WriterTake(s, f), n - 1)
             ELSE IF Len(s.queue) < s.chan THEN MixN([s EXCEPT !.queue = Append(@, f)], n - 1)
             ELSE [s EXCEPT !.busy = TRUE, !.until = Never, !.held = f, !.left = n - 1, !.blocked = @ + 1]

\* how many frames a tick at the present time is worth
Update(s0) ==
    LET s == [s0 EXCEPT !.pend = FALSE]
        dt == s.now - s.last
        n  == (dt + s.tick \div 4) \div s.tick
        s1 == [s EXCEPT !.last = @ + n * s.tick,
                        !.zero = @ + (IF n = 0 THEN 1 ELSE 0),
                        !.timed = @ + (IF n = 1 THEN 1 ELSE 0),
                        !.jump = @ + (IF n > 1 THEN n ELSE 0)]
    IN  IF ~s.started THEN MixN([s EXCEPT !.started = TRUE, !.last = s.now, !.timed = @ + 1], 1)
        ELSE IF dt < 0 THEN [s EXCEPT !.neg = @ + 1, !.busy = FALSE, !.until = Never]
        ELSE IF n > s.frames
             THEN MixN([s1 EXCEPT !.resets = @ + s.frames, !.last = s.now], s.frames)
        ELSE MixN(s1, n)

\* the mixing goroutine goes on after it was blocked
Resume(s0) ==
    LET s == MixN([s0 EXCEPT !.busy = FALSE, !.until = Never], s0.left)
    IN  IF ~s.busy /\ s.pend THEN Update(s) ELSE s

Tick(s) == LET s1 == [s EXCEPT !.next = @ + s.tick]
           IN  IF s1.busy THEN [s1 EXCEPT !.pend = TRUE] ELSE Update(s1)

\* the writer goroutine finished a call to the output
WriterDone(s0) ==
    LET s == Failed([s0 EXCEPT !.wuntil = Never], s0.wfail) IN
    IF s.queue = <<>> THEN s
    ELSE LET s1 == WriterTake([s EXCEPT !.queue = Tail(@)], s.queue[1])
         IN  IF s1.busy THEN Resume([s1 EXCEPT !.queue = Append(@, s1.held), !.held = <<>>]) ELSE s1

\* ------------------------------------------------------------ time
RECURSIVE MixRun(_, _)
Earlier(a, b) == IF a = Never THEN b ELSE IF b = Never THEN a ELSE MMin(a, b)
MixRun(s, t) ==
    \* once stopped there are no ticks; an update in progress goes on
    LET e == IF s.stopped THEN (IF s.chan = 0 THEN s.until ELSE Never)
             ELSE Earlier(s.next, Earlier(s.until, s.wuntil)) IN
    IF e = Never \/ e > t THEN [s EXCEPT !.now = t]
    ELSE LET s1 == [s EXCEPT !.now = e] IN
         MixRun(IF ~s.stopped /\ e = s.next THEN Tick(s1)
                ELSE IF e = s.until THEN Resume(Failed(s1, s1.wfail))
                ELSE WriterDone(s1), t)

\* ------------------------------------------------------------ public calls
MBegin(s) == [s EXCEPT !.out = <<>>]
MAdvance(s, d) == MixRun(MBegin(s), s.now + d)

MNewInput(s) ==
    IF s.stopped THEN MBegin(s)
    ELSE [MBegin(s) EXCEPT !.inputs = Append(@, [id |-> s.nin, q |-> <<>>, buf |-> TRUE]),
                           !.nin = @ + 1, !.tracks = @ + 1, !.total = @ + 1]

MHas(s, id) == \E i \in 1..Len(s.inputs) : s.inputs[i].id = id

MRemove(s, id) ==
    IF ~MHas(s, id) THEN MBegin(s)
    ELSE [MBegin(s) EXCEPT !.inputs = SelectSeq(@, LAMBDA i : i.id # id), !.tracks = @ - 1,
                           !.gone = @ \o SelectSeq(s.inputs, LAMBDA i : i.id = id)]

MWrite(s, id, xs) ==
    LET cap == s.sz * s.frames
        new(i) == LET all == i.q \o xs IN
                  IF Len(all) > cap THEN SubSeq(all, Len(all) - cap + 1, Len(all)) ELSE all
        old == SelectSeq(s.inputs \o s.gone, LAMBDA i : i.id = id)
        upd(q) == [k \in 1..Len(q) |-> IF q[k].id = id THEN [q[k] EXCEPT !.q = new(q[k])] ELSE q[k]]
        over == MMax(0, Len(old[1].q) + Len(xs) - cap)
    IN  [MBegin(s) EXCEPT !.inputs = upd(@), !.gone = upd(@),
                          !.inframes = @ + 1, !.insamples = @ + Len(xs),
                          !.dframes = @ + (IF over > 0 THEN 1 ELSE 0), !.dsamples = @ + over]

MSink(s, d, f) == [MBegin(s) EXCEPT !.delay = d, !.fail = f]
RECURSIVE MixOut(_, _)
\* With a channel nobody waits for the writer any more when the mixer is stopped: the rest of
\* the update is mixed.  The writer ends at any time, so any of the frames in the channel and
\* of those of the update in progress may still come out.
MixOut(s, n) ==
    IF n = 0 THEN [s EXCEPT !.busy = FALSE, !.left = 0, !.held = <<>>]
    ELSE LET m == MixFrame(s) IN MixOut([m.st EXCEPT !.rest = Append(@, m.frame)], n - 1)
\* a tick that is pending when the mixer is stopped is not worth a frame
MStop(s) ==
    IF s.stopped THEN MBegin(s)
    ELSE LET s1 == [MBegin(s) EXCEPT !.stopped = TRUE, !.pend = FALSE,
                                     !.rest = s.queue \o (IF s.held = <<>> THEN <<>> ELSE <<s.held>>)]
         IN  IF s.chan = 0 THEN s1 ELSE MixOut(s1, s1.left)
RECURSIVE Rest(_, _)
\* what may follow after fs came out: NoRest if they cannot come out in this order
NoRest == << <<>> >>
Rest(fs, rest) ==
    IF fs = <<>> THEN rest
    ELSE IF rest = <<>> THEN NoRest
    ELSE Rest(IF fs[1] = rest[1] THEN Tail(fs) ELSE fs, Tail(rest))

\* ------------------------------------------------------------ properties
MInvQueues(s) == \A i \in 1..Len(s.inputs) : Len(s.inputs[i].q) <= s.sz * s.frames
MInvTracks(s) == s.tracks = Len(s.inputs) /\ s.total = s.nin
MInvPace(s) == s.stopped \/ s.mixes = s.oframes
\* frames mixed = frames that ticks were worth (except when the late ones were cut)
MInvCount(s) == s.mixes + s.left = s.timed + s.jump - (IF s.resets = 0 THEN 0 ELSE s.jump + s.timed - s.mixes - s.left)
MInvWhole(s) == s.osamples = s.oframes * s.sz
\* no input lags the clock by more than the queue depth: late mixing is bounded
MInvLag(s) == s.left < s.frames
MInvBlocked(s) == (s.held # <<>>) => (s.busy /\ Len(s.queue) = s.chan)
=============================================================================
