------------------------------- MODULE Switch -------------------------------
(* The switch writer (media.go): one writer at a time, which can be exchanged. *)
EXTENDS Integers, Sequences

None == -1
Error == -3    \* the call returned an error
\* w: the attached writers [rate, inn (samples in the switch's rate that went to it), closed, bad (its calls fail)]
SWInit(rates) == [rate |-> 0, cur |-> None, on |-> TRUE, panic |-> FALSE, ret |-> None, to |-> None, val |-> 0,
                  w |-> [i \in 1..Len(rates) |-> [rate |-> rates[i], inn |-> 0, closed |-> 0, bad |-> FALSE]]]
SWBegin(x) == [x EXCEPT !.panic = FALSE, !.ret = None, !.to = None, !.val = 0]
Panic(x) == [SWBegin(x) EXCEPT !.panic = TRUE]

\* rate 0: not created, -1: still open
New(x, rate) == IF rate = 0 THEN Panic(x) ELSE [SWBegin(x) EXCEPT !.rate = IF rate < 0 THEN -1 ELSE rate, !.cur = None, !.on = TRUE]
SetRate(x, rate) == IF rate <= 0 \/ x.rate # -1 THEN Panic(x) ELSE [SWBegin(x) EXCEPT !.rate = rate]
Swap(x, i) == IF i # None /\ x.rate <= 0 THEN Panic(x) ELSE [SWBegin(x) EXCEPT !.cur = i, !.ret = x.cur]
GetRate(x) == IF x.rate <= 0 THEN Panic(x) ELSE [SWBegin(x) EXCEPT !.val = x.rate]
GetCur(x) == [SWBegin(x) EXCEPT !.ret = x.cur]
Put(x, n) == IF ~x.on \/ x.cur = None THEN SWBegin(x)
             ELSE [SWBegin(x) EXCEPT !.to = x.cur, !.w[x.cur + 1].inn = @ + n]
\* the errors of the current writer are returned
CloseIt(x) == IF x.cur = None THEN SWBegin(x)
              ELSE [SWBegin(x) EXCEPT !.cur = None, !.w[x.cur + 1].closed = @ + 1, !.ret = IF x.w[x.cur + 1].bad THEN Error ELSE None]
SetBad(x, i, b) == [SWBegin(x) EXCEPT !.w[i + 1].bad = b]
Enable(x, b) == [SWBegin(x) EXCEPT !.on = b]

SWApply(x, e) ==
    CASE e.ev = "new"     -> New(x, e.rate)
      [] e.ev = "setrate" -> SetRate(x, e.rate)
      [] e.ev = "swap"    -> Swap(x, e.i)
      [] e.ev = "rate"    -> GetRate(x)
      [] e.ev = "get"     -> GetCur(x)
      [] e.ev = "write"   -> Put(x, Len(e.xs))
      [] e.ev = "close"   -> CloseIt(x)
      [] e.ev = "enable"  -> Enable(x, e.b)
      [] e.ev = "bad"     -> SetBad(x, e.i, e.on)
SWInv(x) == /\ x.cur # None => x.rate > 0
            /\ x.to # None => x.on /\ x.to = x.cur
=============================================================================
