-------------------------- MODULE TraceRtpStreamPar -------------------------
(* One stream used by several goroutines.  The timestamp is the frame time of  *)
(* the payloads so far plus the delays so far: those that ended before count,  *)
(* those that have not begun do not.                                           *)
EXTENDS Integers, Sequences, TraceDet
PInit(e) == [seq |-> 0, dur |-> e.dur, typ |-> e.typ, n |-> 0, done |-> 0, resets |-> e.resets, begun |-> 0, last |-> 0,
             next |-> [t \in 0..(e.threads - 1) |-> 0], low |-> [t \in 0..(e.threads - 1) |-> 0]]
Low(x) == x.dur * x.n + x.done
High(x) == x.dur * x.n + x.begun
PStep(x, e) ==
    CASE e.ev = "pkt" ->
           [st |-> [x EXCEPT !.seq = (@ + 1) % 65536, !.last = e.o.ts, !.n = IF e.inc THEN @ + 1 ELSE @, !.next[e.t] = e.i + 1],
            obs |-> [seq |-> x.seq, typ |-> x.typ, m |-> e.i % 2 = 1],
            rel |-> [order |-> e.i >= x.next[e.t], ts |-> x.resets \/ (e.o.ts >= Low(x) /\ e.o.ts <= High(x) /\ e.o.ts >= x.last)]]
      [] e.ev = "delaying" -> [st |-> [x EXCEPT !.begun = @ + e.d], obs |-> [none |-> 0]]
      [] e.ev = "delayed" -> [st |-> [x EXCEPT !.done = @ + e.d], obs |-> [none |-> 0]]
      [] e.ev = "getting" -> [st |-> [x EXCEPT !.low[e.t] = Low(x)], obs |-> [none |-> 0]]
      [] e.ev = "got" -> [st |-> x, obs |-> [none |-> 0], rel |-> [ts |-> x.resets \/ (e.o.ts >= x.low[e.t] /\ e.o.ts <= High(x))]]
      [] e.ev = "resetting" -> [st |-> x, obs |-> [none |-> 0]]
      [] e.ev = "end" -> [st |-> x, obs |-> [none |-> 0], rel |-> [ts |-> x.resets \/ (e.o.ts = Low(x) /\ x.done = x.begun)]]
=============================================================================
