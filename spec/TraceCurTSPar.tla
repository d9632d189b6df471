---------------------------- MODULE TraceCurTSPar ----------------------------
(* Goroutines that ask one SeqWriter for timestamps: what they get is what     *)
(* they asked for or something more recent by over 25 frames, and the most     *)
(* recent timestamp never goes back.                                           *)
EXTENDS RtpOut, TraceDet
PInit(e) == [inc |-> e.inc, top |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
\* q[i] = <<asked, got, most recent one after it>>
Good(q, inc) ==
    \A i \in 1..Len(q) :
        LET ts == q[i][1] ret == q[i][2] now == q[i][3] top == IF i = 1 THEN 0 ELSE q[i - 1][3]
        IN  /\ ret = ts \/ ret > ts + ResetFrames * inc
            /\ ret = ts => CurTS(top, ts, inc).ts = ts
            /\ ret # ts => ret >= top
            /\ now >= Max(top, ret)
PStep(x, e) ==
    IF e.ev = "asked"
    THEN [st |-> [x EXCEPT !.top = Max(@, e.o.q[Len(e.o.q)][3])], obs |-> [none |-> 0], rel |-> [ts |-> Good(e.o.q, x.inc)]]
    ELSE [st |-> x, obs |-> [none |-> 0], rel |-> [ts |-> e.o.ts = x.top]]
=============================================================================
