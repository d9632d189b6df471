---------------------------- MODULE TraceJitter ----------------------------
EXTENDS Jitter, TraceDet

Pk(s0, e) == [id |-> e.id, sn |-> e.sn, at |-> s0.now - e.ago, st |-> e.st, en |-> e.en,
              pad |-> e.pad, dis |-> FALSE]

Obs(s0) == [ out   |-> s0.out,
             ids   |-> [i \in 1..Len(s0.out) |-> s0.out[i][2]],
             cbs   |-> IF s0.mute THEN <<>> ELSE s0.cbs,
             whole |-> TRUE, held |-> TRUE,
             stats |-> <<s0.pushed, s0.padpushed, s0.lost, s0.dropped, s0.popped, s0.samples>>,
             size  |-> Len(s0.q) ]

After(s0, e) ==
    CASE e.ev = "push"    -> Push(s0, Pk(s0, e))
      [] e.ev = "batch"   -> Batch(s0, [i \in 1..Len(e.ps) |-> Pk(s0, e.ps[i])])
      [] e.ev = "flush"   -> Flush(s0)
      [] e.ev = "latency" -> UpdateLatency(s0, e.d)
      [] e.ev = "close"   -> Close(s0)
      [] e.ev = "sleep"   -> Advance(s0, e.d)

JStep(s0, e) == LET n == After(s0, e) IN [st |-> n, obs |-> Obs(n)]
\* mute: nobody listens to losses
JInit(e) == InitState(e.lat, 0) @@ [mute |-> "mute" \in DOMAIN e /\ e.mute]

Inv == l > 1 => /\ InvOrder(s) /\ InvConserved(s) /\ InvLost(s) /\ InvQueue(s)
                /\ InvFresh(s) /\ InvTimer(s) /\ InvEager(s)
=============================================================================
