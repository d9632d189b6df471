------------------------------ MODULE PlayAudio ------------------------------
(* Playing a list of frames (pcm.go), one per sample duration.                 *)
EXTENDS Integers, Sequences

AIdle == [on |-> FALSE, todo |-> <<>>, out |-> <<>>, ret |-> "", fail |-> FALSE, n |-> 0]
AQuiet(p) == [p EXCEPT !.out = <<>>, !.ret = ""]
AApply(p0, e) ==
    LET p == AQuiet(p0) IN
    CASE e.ev = "play" -> IF e.frames = <<>> THEN [p EXCEPT !.ret = "nil"]
                          ELSE [p EXCEPT !.on = TRUE, !.todo = e.frames]
      [] e.ev = "tick" -> IF ~p.on THEN p
                          ELSE IF p.fail THEN [p EXCEPT !.on = FALSE, !.ret = "audio"]
                          ELSE [p EXCEPT !.out = <<p.todo[1]>>, !.todo = Tail(@), !.on = Len(p.todo) > 1, !.n = @ + 1,
                                         !.ret = IF Len(p.todo) = 1 THEN "nil" ELSE ""]
      [] e.ev = "cancel" -> IF p.on THEN [p EXCEPT !.on = FALSE, !.ret = "cancel"] ELSE p
      [] e.ev = "faila" -> [p EXCEPT !.fail = e.on]
=============================================================================
