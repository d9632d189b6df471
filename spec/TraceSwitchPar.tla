--------------------------- MODULE TraceSwitchPar ---------------------------
(* Threads that write, exchange, close, enable and disable at the same time.   *)
EXTENDS Switch, TraceNon
Free == [pc |-> "idle", k |-> "", i |-> None, v |-> 0]
PInitOf(e) == [x |-> [rate |-> 1, cur |-> None, on |-> TRUE], th |-> [t \in 0..(e.threads - 1) |-> Free]]
PAccept(y, e) ==
    LET c == y.th[e.t] IN
    CASE e.ev = "call" -> IF c.pc = "idle" THEN {[y EXCEPT !.th[e.t] = [pc |-> "enter", k |-> e.k, i |-> e.i, v |-> e.v]]} ELSE {}
      [] e.ev = "sink" -> IF c.pc = "at" /\ c.k = "write" /\ c.i = e.o.i /\ c.v = e.o.v THEN {[y EXCEPT !.th[e.t].pc = "back"]} ELSE {}
      [] e.ev = "closed" -> IF c.pc = "at" /\ c.k = "close" /\ c.i = e.o.i THEN {[y EXCEPT !.th[e.t].pc = "back"]} ELSE {}
      [] e.ev = "ret" -> IF c.pc = "back" /\ e.o.i = (IF c.k = "swap" THEN c.i ELSE None) THEN {[y EXCEPT !.th[e.t] = Free]} ELSE {}
Inside1(y, t) ==
    LET c == y.th[t] IN
    IF c.pc = "enter"
    THEN CASE c.k = "swap"   -> {[y EXCEPT !.x.cur = c.i, !.th[t].pc = "back", !.th[t].i = y.x.cur]}
           [] c.k = "close"  -> {[y EXCEPT !.x.cur = None, !.th[t].pc = IF y.x.cur = None THEN "back" ELSE "at", !.th[t].i = y.x.cur]}
           [] c.k = "enable" -> {[y EXCEPT !.x.on = c.v = 1, !.th[t].pc = "back"]}
           [] c.k = "write"  -> {[y EXCEPT !.th[t].pc = IF y.x.on THEN "load" ELSE "back"]}
    ELSE IF c.pc = "load"
    THEN {[y EXCEPT !.th[t].pc = IF y.x.cur = None THEN "back" ELSE "at", !.th[t].i = y.x.cur]}
    ELSE {}
PHidden(y) == UNION {Inside1(y, t) : t \in DOMAIN y.th}
=============================================================================
