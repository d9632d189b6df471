------------------------------ MODULE MCMixer ------------------------------
(* Bounded model of the mixer: one or two inputs, frames of one or two samples,*)
(* an output that is fast or blocks for several ticks.                         *)
EXTENDS Mixer, ModelDet
CONSTANTS Cfg, MaxIn, Sizes, Delays, Sleeps, Ctl, Vals

C(sz, frames, chan) == [sz |-> sz, frames |-> frames, tick |-> 20000, chan |-> chan]
Direct == C(1, 2, 0)
Direct2 == C(2, 3, 0)
Chan1 == C(1, 2, 1)
Chan2 == C(1, 3, 2)

\* the first call puts the clock between ticks, so that nothing happens at the time of a call
MOps(x) ==
    IF x.now = 0 THEN {[ev |-> "sleep", d |-> 250]}
    ELSE (IF x.nin < MaxIn THEN {[ev |-> "new"]} ELSE {})
         \cup {[ev |-> "write", id |-> x.inputs[i].id, xs |-> [k \in 1..n |-> v]] : i \in 1..Len(x.inputs), n \in Sizes, v \in Vals}
         \cup (IF "remove" \in Ctl THEN {[ev |-> "remove", id |-> x.inputs[i].id] : i \in 1..Len(x.inputs)} ELSE {})
         \cup (IF "stop" \in Ctl /\ ~x.stopped THEN {[ev |-> "stop"]} ELSE {})
         \cup {[ev |-> "sink", d |-> d, fail |-> FALSE] : d \in Delays \ {x.delay}}
         \cup {[ev |-> "sleep", d |-> d] : d \in Sleeps}

MCApply(x, e) ==
    CASE e.ev = "new"    -> MNewInput(x)
      [] e.ev = "remove" -> MRemove(x, e.id)
      [] e.ev = "write"  -> MWrite(x, e.id, e.xs)
      [] e.ev = "stop"   -> MStop(x)
      [] e.ev = "sink"   -> MSink(x, e.d, e.fail)
      [] e.ev = "sleep"  -> MAdvance(x, e.d)

MStarts == {MixInit(Cfg)}

Rel(x, t) == IF t = Never THEN Never ELSE t - x.now
MView(x) == [stopped |-> x.stopped, zero |-> x.now = 0, next |-> x.next - x.now, started |-> x.started, last |-> IF x.started THEN x.now - x.last ELSE 0,
             inputs |-> x.inputs, nin |-> x.nin, busy |-> x.busy, until |-> Rel(x, x.until), left |-> x.left,
             pend |-> x.pend, held |-> x.held, wuntil |-> Rel(x, x.wuntil), queue |-> x.queue, delay |-> x.delay]

MGood(x) == MInvQueues(x) /\ MInvTracks(x) /\ MInvPace(x) /\ MInvWhole(x) /\ MInvLag(x) /\ MInvBlocked(x)
=============================================================================
