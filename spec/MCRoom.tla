------------------------------- MODULE MCRoom -------------------------------
(* Bounded model of a conference of two: a few packets of each that come in    *)
(* any order or not at all, the clock, leaving.  What the first caller says    *)
(* are 1, 2, ..., what the second says are 100, 200, ... so that every mixed   *)
(* sample tells what it is made of.                                            *)
EXTENDS Room, ModelDet
CONSTANTS SNs, Sleeps, MaxPushed, Frms

MStarts == {[new |-> TRUE]}
MOps(x) ==
    IF "new" \in DOMAIN x THEN {[ev |-> "cfg", frames |-> f] : f \in Frms}
    ELSE UNION {IF x.r.cs[k].open /\ Len(x.r.cs[k].pk) < MaxPushed
                THEN {[ev |-> "rtp", c |-> k - 1, sn |-> n] : n \in SNs} \cup {[ev |-> "leave", c |-> k - 1]} ELSE {} : k \in 1..Len(x.r.cs)}
         \cup (IF Len(x.r.cs) < 2 THEN {[ev |-> "join"]} ELSE {})
         \cup {[ev |-> "sleep", d |-> d] : d \in Sleeps}
Said(k, sn) == IF k = 1 THEN sn + 1 ELSE 100 * (sn + 1)
MApply(x, e) ==
    IF e.ev = "cfg" THEN [r |-> RInit([sz |-> 1, frames |-> e.frames, tick |-> 20000, chan |-> 0]), heard |-> <<<<>>, <<>>>>, n |-> 0, in |-> <<{}, {}>>]
    ELSE LET r == CASE e.ev = "join" -> RJoin(x.r)
                    [] e.ev = "rtp" -> RRtp(x.r, e.c + 1, e.sn, FALSE, <<Said(e.c + 1, e.sn)>>)
                    [] e.ev = "leave" -> RLeave(x.r, e.c + 1)
                    [] e.ev = "sleep" -> RSleep(x.r, e.d)
             vs == [i \in 1..Len(r.m.out) |-> r.m.out[i][2][1]]
             a == SelectSeq([i \in 1..Len(vs) |-> vs[i] % 100], LAMBDA v : v # 0)
             b == SelectSeq([i \in 1..Len(vs) |-> vs[i] \div 100], LAMBDA v : v # 0)
         IN  [r |-> r, heard |-> <<x.heard[1] \o a, x.heard[2] \o b>>, n |-> x.n + Len(vs),
              in |-> IF e.ev = "rtp" THEN [x.in EXCEPT ![e.c + 1] = @ \cup {e.sn + 1}] ELSE x.in]
Ages(h) == [init |-> h.j.init, prev |-> h.j.prev, closed |-> h.j.closed,
            tm |-> IF h.j.tm = NoTimer THEN -1 ELSE IF h.j.tm <= h.j.now THEN 0 ELSE h.j.tm - h.j.now,
            q |-> [i \in 1..Len(h.j.q) |-> [h.j.q[i] EXCEPT !.at = h.j.now - @]]]
MView(x) == IF "new" \in DOMAIN x THEN x
            ELSE [cs |-> [k \in 1..Len(x.r.cs) |-> <<Ages(x.r.cs[k].h), x.r.cs[k].open, x.r.cs[k].in, x.r.cs[k].pk>>],
                  ins |-> x.r.m.inputs, ph |-> x.r.m.next - x.r.m.now, heard |-> x.heard, in |-> x.in, st |-> x.r.m.started,
                  fr |-> x.r.m.frames]
MGood(x) == "new" \in DOMAIN x \/ (
    \* a frame for every 20 ms, whatever the callers do
    /\ x.n = x.r.m.now \div 20000
    /\ \A k \in 1..2 :
          \* what is heard of a caller came in, in its order, once
          /\ \A i \in 1..Len(x.heard[k]) : x.heard[k][i] \in x.in[k]
          /\ \A i \in 1..(Len(x.heard[k]) - 1) : x.heard[k][i] < x.heard[k][i + 1]
    /\ \A k \in 1..Len(x.r.cs) :
          \* nothing waits in a jitter buffer for more than 60 ms, nor in the mixer beyond its depth
          /\ ~x.r.cs[k].open \/ \A i \in 1..Len(x.r.cs[k].h.j.q) : x.r.cs[k].h.j.now - x.r.cs[k].h.j.q[i].at <= 60000
    /\ MInvQueues(x.r.m) /\ MInvTracks(x.r.m) /\ MInvWhole(x.r.m))
=============================================================================
