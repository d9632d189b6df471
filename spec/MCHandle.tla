------------------------------ MODULE MCHandle ------------------------------
(* The read loop step by step: what HandleLoop does is one of these runs.      *)
EXTENDS RtpHandle, ModelDet, FiniteSets
CONSTANTS MaxPackets
\* n: packets read; seen: packets handled; closes: calls of Close; end: the error returned
MStarts == {[n |-> 0, seen |-> <<>>, closes |-> 0, end |-> "", bad |-> 0, at |-> "read"]}
MOps(x) == CASE x.at = "read"   -> {[ev |-> "packet"] : k \in {j \in {1} : x.n < MaxPackets}} \cup {[ev |-> "eof"]}
             [] x.at = "handle" -> {[ev |-> "ok"], [ev |-> "bad"]}
             [] x.at = "close"  -> {[ev |-> "close"]}
             [] OTHER -> {}
MApply(x, e) ==
    CASE e.ev = "packet" -> [x EXCEPT !.n = @ + 1, !.at = "handle"]
      [] e.ev = "eof"    -> [x EXCEPT !.end = "reader", !.at = "close"]
      [] e.ev = "ok"     -> [x EXCEPT !.seen = Append(@, x.n), !.at = "read"]
      [] e.ev = "bad"    -> [x EXCEPT !.seen = Append(@, x.n), !.end = "handler", !.bad = x.n, !.at = "close"]
      [] e.ev = "close"  -> [x EXCEPT !.closes = @ + 1, !.at = "done"]
MView(x) == x
MGood(x) == /\ x.closes <= 1
            /\ x.at = "done" => /\ x.closes = 1
                                /\ x.end = LoopErr(x.n, x.bad)
                                /\ x.seen = [i \in 1..LoopHandled(x.n, x.bad) |-> i]
=============================================================================
