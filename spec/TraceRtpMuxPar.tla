--------------------------- MODULE TraceRtpMuxPar ---------------------------
(* A mux used by several goroutines: each call takes effect at one moment     *)
(* between its beginning and its end; a packet is for the handler of that      *)
(* moment, which sees it before the call returns.                              *)
EXTENDS RtpMux, TraceNon
PInit(e) == [m |-> MxInit(e.def), pc |-> [t \in 0..(e.threads - 1) |-> "idle"], op |-> [t \in 0..(e.threads - 1) |-> [ev |-> "none"]],
             said |-> [t \in 0..(e.threads - 1) |-> {}], hits |-> [t \in 0..(e.threads - 1) |-> <<>>], err |-> [t \in 0..(e.threads - 1) |-> 0]]
PAccept(x, e) ==
    CASE e.ev = "call" -> {[x EXCEPT !.pc[e.t] = "wait", !.op[e.t] = e.op]}
      [] e.ev = "hit" -> {[x EXCEPT !.hits[t] = <<>>] : t \in {v \in DOMAIN x.pc : x.pc[v] = "done" /\ x.hits[v] = <<<<e.h, e.typ, e.id>>>>}}
      [] e.ev = "said" -> IF x.pc[e.t] = "done" /\ {e.desc[i] : i \in DOMAIN e.desc} = x.said[e.t] THEN {x} ELSE {}
      [] e.ev = "ret" -> IF x.pc[e.t] = "done" /\ x.hits[e.t] = <<>> /\ ("err" \in Check => x.err[e.t] = e.o.err)
                         THEN {[x EXCEPT !.pc[e.t] = "idle"]} ELSE {}
PHidden(x) ==
    {LET m == MxApply(x.m, x.op[t])
     IN  [x EXCEPT !.m = MxClear(m), !.pc[t] = "done", !.hits[t] = m.hits, !.said[t] = IF x.op[t].ev = "string" THEN MxDesc(m) ELSE {}, !.err[t] = m.err]
       : t \in {v \in DOMAIN x.pc : x.pc[v] = "wait"}}
=============================================================================
