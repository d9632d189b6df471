---------------------------- MODULE MCPlayAudio ----------------------------
EXTENDS PlayAudio, ModelDet
CONSTANTS MaxFrames
Fr(n) == [i \in 1..n |-> <<i, i>>]
MStarts == {[phase |-> "new", p |-> AIdle, ticks |-> 0, len |-> 0]}
MOps(x) == CASE x.phase = "new" -> {[ev |-> "play", frames |-> Fr(n)] : n \in 0..MaxFrames} \cup {[ev |-> "faila", on |-> TRUE]}
             [] x.phase = "run" -> {[ev |-> "tick"], [ev |-> "cancel"], [ev |-> "faila", on |-> TRUE]}
             [] OTHER -> {}
MApply(x, e) == LET p == AApply(x.p, e) IN
    [phase |-> IF e.ev = "play" \/ x.phase = "run" THEN (IF p.on THEN "run" ELSE "end") ELSE x.phase,
     p |-> p, ticks |-> IF e.ev = "tick" THEN x.ticks + 1 ELSE x.ticks, len |-> IF e.ev = "play" THEN Len(e.frames) ELSE x.len]
MView(x) == x
MGood(x) == /\ x.p.ret = "nil" => x.p.n = x.len /\ x.ticks = x.len
            /\ x.p.on => x.p.n = x.ticks /\ x.p.n < x.len
            /\ x.p.out # <<>> => x.p.out[1] = <<x.ticks, x.ticks>>
=============================================================================
