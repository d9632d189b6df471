------------------------------- MODULE Tones -------------------------------
(* The tone player (package tones): a list of tones [hz, dur, sil] (times in   *)
(* microseconds) played in a loop, one frame every 20 ms.                      *)
EXTENDS Integers, Sequences

FrameUs == 20000
PIdle == [on |-> FALSE, tones |-> <<>>, i |-> 0, part |-> "sil", left |-> 0, fail |-> FALSE, hz |-> <<>>, ret |-> "", frame |-> <<>>]

Play(p, list) == [PIdle EXCEPT !.on = TRUE, !.tones = list, !.fail = p.fail]

\* the tone after the current one
Following(p) == IF p.i = Len(p.tones) THEN 1 ELSE p.i + 1
Sound(p, i) == [p EXCEPT !.i = i, !.part = "tone", !.left = p.tones[i].dur, !.hz = p.tones[i].hz]
Advance(p) ==
    IF p.i > 0 /\ p.part = "tone" /\ p.tones[p.i].sil # 0
    THEN [p EXCEPT !.part = "sil", !.left = p.tones[p.i].sil, !.hz = <<>>]
    ELSE Sound(p, Following(p))

PQuiet(p) == [p EXCEPT !.ret = "", !.frame = <<>>]
PTick(p0) ==
    LET p  == PQuiet(p0)
        p1 == IF p.left <= 0 THEN Advance(p) ELSE p
    IN  IF ~p.on THEN p
        ELSE IF p1.fail THEN [p1 EXCEPT !.on = FALSE, !.ret = "audio"]
        ELSE [p1 EXCEPT !.frame = <<p1.hz>>, !.left = @ - FrameUs]
PCancel(p) == IF p.on THEN [PQuiet(p) EXCEPT !.on = FALSE, !.ret = "cancel"] ELSE PQuiet(p)
PFail(p, on) == [PQuiet(p) EXCEPT !.fail = on]

PApply(p, e) ==
    CASE e.ev = "play"   -> Play(p, e.tones)
      [] e.ev = "tick"   -> PTick(p)
      [] e.ev = "cancel" -> PCancel(p)
      [] e.ev = "faila"  -> PFail(p, e.on)
=============================================================================
