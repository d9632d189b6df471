--------------------------- MODULE MCHandleJitter ---------------------------
(* Bounded model of the jitter handler: packets of a few sequence numbers, a    *)
(* handler that fails for some of them, the clock, Close.                      *)
EXTENDS HandleJitter, ModelDet
CONSTANTS SNs, Sleeps, MaxPushed, BadSets

\* out: all that was handed over; errs: the packets for which the handler failed; rets: errors returned
MStarts == {[new |-> TRUE]}
Bads == {<<>>, <<2>>, <<1, 3>>, <<2, 3, 4>>}
MOps(x) == IF "new" \in DOMAIN x THEN {[ev |-> "cfg", bad |-> b] : b \in BadSets}
           ELSE IF x.h.closes > 0 THEN {}
           ELSE (IF x.h.j.pushed < MaxPushed THEN {[ev |-> "rtp", id |-> x.h.j.pushed + 1, sn |-> n, pad |-> FALSE] : n \in SNs} ELSE {})
                \cup {[ev |-> "sleep", d |-> d] : d \in Sleeps} \cup {[ev |-> "close", d |-> d] : d \in {0} \cup Sleeps}
MApply(x, e) == IF e.ev = "cfg" THEN [h |-> HStart(e.bad), out |-> <<>>, rets |-> <<>>, errs |-> <<>>] ELSE
                LET r == HStep(x.h, e)
                    ids == [i \in 1..Len(r.obs.out) |-> r.obs.out[i][2]]
                    bad == SelectSeq(ids, LAMBDA k : \E i \in 1..Len(x.h.bad) : x.h.bad[i] = k)
                IN [h |-> r.st, out |-> x.out \o ids, errs |-> x.errs \o bad,
                    rets |-> IF r.obs.ret = 0 THEN x.rets ELSE Append(x.rets, r.obs.ret)]
\* ages matter, not the absolute time
MView(x) == IF "new" \in DOMAIN x THEN x ELSE [j |-> [init |-> x.h.j.init, prev |-> x.h.j.prev, closed |-> x.h.j.closed, pushed |-> x.h.j.pushed,
                    tm |-> IF x.h.j.tm = NoTimer THEN -1 ELSE IF x.h.j.tm <= x.h.j.now THEN 0 ELSE x.h.j.tm - x.h.j.now,
                    q |-> [i \in 1..Len(x.h.j.q) |-> [x.h.j.q[i] EXCEPT !.at = x.h.j.now - @]]],
             err |-> x.h.err, bad |-> x.h.bad, closes |-> x.h.closes]
Has(q, k) == \E i \in 1..Len(q) : q[i] = k
MGood(x) == "new" \in DOMAIN x \/ (
            /\ x.h.closes <= 1
            \* each packet is handed over once at most
            /\ \A i, j \in 1..Len(x.out) : i # j => x.out[i] # x.out[j]
            /\ \A i \in 1..Len(x.out) : x.out[i] \in 1..x.h.j.pushed
            \* what is returned did happen, once, and nothing is made up
            /\ \A i, j \in 1..Len(x.rets) : i # j => x.rets[i] # x.rets[j]
            /\ \A i \in 1..Len(x.rets) : Has(x.errs, x.rets[i])
            \* a failure is either reported, waiting to be, or was preceded by one waiting
            /\ x.errs # <<>> => x.rets # <<>> \/ x.h.err # 0)
=============================================================================
