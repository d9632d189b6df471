--------------------------- MODULE TraceFramesPar ---------------------------
(* Writers of several threads: each write is cut into frames as a whole.       *)
EXTENDS Frames, TraceNon
PInitOf(e) == [f |-> FInit(e.size), pc |-> [t \in 0..(e.threads - 1) |-> "idle"], d |-> [t \in 0..(e.threads - 1) |-> <<>>], own |-> -1, due |-> <<>>]
PAccept(x, e) ==
    CASE e.ev = "call"  -> IF x.pc[e.t] = "idle" THEN {[x EXCEPT !.pc[e.t] = "wait", !.d[e.t] = e.d]} ELSE {}
      [] e.ev = "frame" -> IF x.due # <<>> /\ x.due[1][1] = e.o.xs THEN {[x EXCEPT !.due = Tail(@)]} ELSE {}
      [] e.ev = "ret"   -> IF x.own = e.t /\ x.due = <<>> /\ ~e.o.err THEN {[x EXCEPT !.own = -1, !.pc[e.t] = "idle"]}
                           ELSE IF x.pc[e.t] = "done" /\ ~e.o.err THEN {[x EXCEPT !.pc[e.t] = "idle"]} ELSE {}
\* a thread gets its turn; the turn ends (the return may be seen later)
PHidden(x) ==
    IF x.own = -1
    THEN {LET f == IF x.d[t] = <<-1>> THEN FClose(x.f, FALSE) ELSE FWrite(x.f, x.d[t])
          IN [x EXCEPT !.own = t, !.pc[t] = "own", !.f = [f EXCEPT !.inn = <<>>, !.sent = <<>>, !.out = <<>>], !.due = f.out]
            : t \in {v \in DOMAIN x.pc : x.pc[v] = "wait"}}
    ELSE IF x.due = <<>> THEN {[x EXCEPT !.pc[x.own] = "done", !.own = -1]} ELSE {}
=============================================================================
