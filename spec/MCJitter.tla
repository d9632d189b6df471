------------------------------ MODULE MCJitter ------------------------------
(* Bounded model of the jitter buffer: a few sequence numbers around the      *)
(* wrap-around (and one beyond a jump), every combination of sample flags.    *)
EXTENDS Jitter, ModelDet

CONSTANTS SNs, Flags, Sleeps, Lats, Ctl

Full  == {<<TRUE, TRUE, FALSE>>, <<TRUE, FALSE, FALSE>>, <<FALSE, TRUE, FALSE>>, <<FALSE, FALSE, FALSE>>, <<TRUE, TRUE, TRUE>>}
Few   == {<<TRUE, TRUE, FALSE>>, <<TRUE, FALSE, FALSE>>, <<FALSE, TRUE, FALSE>>}
Audio == {<<TRUE, TRUE, FALSE>>, <<TRUE, TRUE, TRUE>>}

JOps(x) ==
    {[ev |-> "push", id |-> x.pushed, sn |-> n, st |-> f[1], en |-> f[2], pad |-> f[3], ago |-> 0, api |-> "at"]
        : n \in SNs, f \in Flags}
    \cup {[ev |-> "sleep", d |-> d] : d \in Sleeps}
    \cup {[ev |-> "latency", d |-> d] : d \in Lats}
    \cup {[ev |-> c] : c \in Ctl}

JApply(x, o) ==
    CASE o.ev = "push" -> Push(x, [id |-> o.id, sn |-> o.sn, at |-> x.now - o.ago, st |-> o.st, en |-> o.en,
                                   pad |-> o.pad, dis |-> FALSE])
      [] o.ev = "flush" -> Flush(x)
      [] o.ev = "latency" -> UpdateLatency(x, o.d)
      [] o.ev = "close" -> Close(x)
      [] o.ev = "sleep" -> Advance(x, o.d)

JStarts == {InitState(20250, 0)}

\* the behaviour depends on ages, not on absolute time; last outputs and counters are not state
JView(x) == [init |-> x.init, prev |-> x.prev, lat |-> x.lat, closed |-> x.closed,
             tm |-> IF x.tm = NoTimer THEN -1 ELSE IF x.tm <= x.now THEN 0 ELSE x.tm - x.now,
             q |-> [i \in 1..Len(x.q) |-> [x.q[i] EXCEPT !.id = 0, !.at = x.now - @]],
             last |-> x.last, jumps |-> x.jumps, ok |-> x.orderOK /\ x.shapeOK]

JGood(x) == /\ InvOrder(x) /\ InvConserved(x) /\ InvLost(x) /\ InvQueue(x)
            /\ InvFresh(x) /\ InvTimer(x) /\ InvEager(x)
=============================================================================
