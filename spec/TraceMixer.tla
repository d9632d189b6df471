----------------------------- MODULE TraceMixer -----------------------------
EXTENDS Mixer, TraceDet

MApply(x, e) ==
    CASE e.ev = "new"    -> MNewInput(x)
      [] e.ev = "remove" -> MRemove(x, e.id)
      [] e.ev = "write"  -> MWrite(x, e.id, e.xs)
      [] e.ev = "sink"   -> MSink(x, e.d, e.fail)
      [] e.ev = "stop"   -> MStop(x)
      [] e.ev = "sleep"  -> MAdvance(x, e.d)

MFrames(x) == [i \in 1..Len(x.out) |-> x.out[i][2]]
MTimes(x) == [i \in 1..Len(x.out) |-> x.out[i][1]]

MStats(x) == [ times |-> MTimes(x), frames |-> MFrames(x), count |-> Len(x.out),
               tracks |-> <<x.tracks, x.total>>,
               restarts |-> x.restarts,
               clock |-> <<x.mixes, x.timed, x.jump, x.zero, x.neg, x.resets>>,
               input |-> <<x.insamples, x.inframes, x.dsamples, x.dframes>>,
               mixed |-> <<x.msamples, x.mframes>>,
               output |-> <<x.osamples, x.oframes, x.werr, x.blocked>> ]

\* after Stop the writer of the channel ends at any time: of what it wrote only bounds are known
Quiet(n) == [tracks |-> <<n.tracks, n.total>>, restarts |-> n.restarts,
             clock |-> <<n.mixes, n.timed, n.jump, n.zero, n.neg, n.resets>>,
             input |-> <<n.insamples, n.inframes, n.dsamples, n.dframes>>,
             mixed |-> <<n.msamples, n.mframes>>]

MStep(x, e) ==
    LET n == MApply(x, e)
        isnil == e.ev = "new" /\ x.stopped
        loose == n.stopped /\ x.chan > 0
        base == IF loose THEN Quiet(n) ELSE MStats(n)
        obs == IF e.ev = "new" THEN base @@ [nil |-> isnil] ELSE base
    IN  IF loose
        THEN LET r == Rest(e.o.frames, IF x.stopped THEN x.rest ELSE n.rest)
             IN  [st |-> [n EXCEPT !.rest = IF r = NoRest THEN <<>> ELSE r], obs |-> obs,
                  rel |-> [count |-> r # NoRest, frames |-> r # NoRest,
                           output |-> e.o.output[2] = n.oframes /\ e.o.output[1] = n.osamples]]
        ELSE [st |-> n, obs |-> obs]

MInitOf(e) == MixInit(e)
Inv == l > 1 => MInvQueues(s) /\ MInvTracks(s) /\ MInvWhole(s)
                /\ (s.stopped \/ (MInvPace(s) /\ MInvLag(s) /\ MInvBlocked(s)))
=============================================================================
