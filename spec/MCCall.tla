------------------------------- MODULE MCCall -------------------------------
(* Bounded model of a call: a few packets (sound, with Digits also digits) of  *)
(* one or two ends, a network that does what it likes with them, the clock,    *)
(* hanging up.                                                                 *)
EXTENDS Call, ModelDet
CONSTANTS MaxSent, MaxArrivals, Sleeps, Digits, Talkers, Encs

MStarts == {[new |-> TRUE]}
\* op: how the codecs and policies are chosen
Cfgs == {[ev |-> "setup", ena |-> a, enb |-> b, enca |-> ec[1], encb |-> ec[2], in |-> <<r, r>>, out |-> <<r, r>>]
            : a \in {<<"PCMU/8000", EventName>>, <<"G722/8000", "PCMU/8000", "PCMA/8000", EventName>>, <<"G722/8000">>},
              b \in {<<"PCMU/8000", EventName>>, <<"G722/8000", "PCMA/8000">>}, ec \in Encs, r \in {8000, 16000}}
Useful(c) == LET m == Chosen(Elems(c.ena), Elems(c.enb)) IN (m = "" /\ c.in[1] = 8000) \/ (m # "" /\ c.in[1] = Rate(m))
PlainEncs == {<<"none", "none">>, <<"require", "require">>, <<"allow", "allow">>, <<"require", "none">>}

Audio(c) == [kind |-> "audio", sn |-> Len(c.pk) % 65536, ts |-> c.ts, m |-> FALSE, len |-> FrameBytes, dig |-> ""]
Event(c, first) == [kind |-> "digit", sn |-> Len(c.pk) % 65536, ts |-> IF first THEN c.ts ELSE c.cur[2], m |-> first, len |-> 4,
                    dig |-> IF first THEN "5" ELSE c.cur[1]]
MOps(x) ==
    IF "new" \in DOMAIN x THEN {c \in Cfgs : Useful(c)}
    ELSE IF ~x.c.up THEN {}
    ELSE {[ev |-> "say", d |-> d, sig |-> "noise"] : d \in {d \in Talkers : Len(x.c.sd[d + 1].pk) < MaxSent}}
         \cup {[ev |-> "event", d |-> d, first |-> f] : d \in {d \in Talkers : Digits /\ x.c.digits /\ x.c.sd[d + 1].open /\ Len(x.c.sd[d + 1].pk) < MaxSent},
                                                         f \in BOOLEAN}
         \cup UNION {{[ev |-> "net", d |-> d, i |-> i] : i \in {i \in 1..Len(x.c.sd[d + 1].pk) : Len(x.arr[2 - d]) < MaxArrivals}} : d \in Talkers}
         \cup {[ev |-> "sleep", d |-> 0, t |-> t] : t \in Sleeps}
         \cup {[ev |-> "hangup", d |-> d] : d \in Talkers}
HeardIds(q) == [i \in 1..Len(q) |-> q[i][2]]
Dup(x, k, hs, c) == [x EXCEPT !.c = c, !.heard = [i \in 1..2 |-> @[i] \o HeardIds(hs[i])],
                              !.digs = [i \in 1..2 |-> @[i] \o DigitsIn(c.sd[3 - i], hs[i])]]
None == <<<<>>, <<>>>>
MApply(x, e) ==
    IF e.ev = "setup" THEN [c |-> Setup(CallInit, Elems(e.ena), Elems(e.enb), e.enca, e.encb, e.in, e.out), heard |-> None, arr |-> None, digs |-> None]
    ELSE LET c == x.c k == e.d + 1 IN
    CASE e.ev = "say" -> IF ~c.sd[k].open THEN x
                         ELSE Dup(x, k, None, [c EXCEPT !.sd[k] = Sends([@ EXCEPT !.said = @ + 1], Audio(@))])
      [] e.ev = "event" -> IF ~e.first /\ c.sd[k].cur = <<>> THEN x
                           ELSE LET d == IF e.first THEN [c.sd[k] EXCEPT !.todo = <<"5">>, !.loose = TRUE] ELSE c.sd[k]
                                IN Dup(x, k, None, [c EXCEPT !.sd[k] = Sends(d, Event(d, e.first))])
      [] e.ev = "net" -> LET r == Arrive(c, 3 - k, e.i) IN
                         [Dup(x, k, [i \in 1..2 |-> IF i = 3 - k THEN r[2] ELSE <<>>], r[1]) EXCEPT !.arr[3 - k] = Append(@, e.i)]
      [] e.ev = "sleep" -> LET p == Elapse(c.sd[1], e.t) q == Elapse(c.sd[2], e.t) IN
                           Dup(x, k, <<p[2], q[2]>>, [c EXCEPT !.sd = <<p[1], q[1]>>])
      [] e.ev = "hangup" -> Dup(x, k, None, [c EXCEPT !.sd[k] = HangUp(@)])
\* ages matter, not the absolute time
Ages(h) == [init |-> h.j.init, prev |-> h.j.prev, closed |-> h.j.closed,
            tm |-> IF h.j.tm = NoTimer THEN -1 ELSE IF h.j.tm <= h.j.now THEN 0 ELSE h.j.tm - h.j.now,
            q |-> [i \in 1..Len(h.j.q) |-> [h.j.q[i] EXCEPT !.at = h.j.now - @]]]
MView(x) == IF "new" \in DOMAIN x THEN x
            ELSE [x EXCEPT !.arr = [k \in 1..2 |-> <<Len(@[k]), IF @[k] = [i \in 1..Len(@[k]) |-> i] THEN 1 ELSE 0>>],
                           !.c.sd = [k \in 1..2 |-> [@[k] EXCEPT !.h = Ages(@)]]]
MGood(x) == "new" \in DOMAIN x \/ \A k \in 1..2 :
    LET h == x.heard[k] a == x.arr[k] o == x.c.sd[3 - k] IN
    \* what is heard was sent and came in, in order, once
    /\ \A i \in 1..Len(h) : h[i] \in Elems(a) /\ h[i] \in 1..Len(o.pk)
    /\ \A i \in 1..(Len(h) - 1) : h[i] < h[i + 1]
    \* a network that does nothing wrong leaves nothing out and delays nothing
    /\ (x.c.sd[k].open /\ a = [i \in 1..Len(a) |-> i]) => h = a
    \* nothing waits for more than 60 ms
    /\ \A i \in 1..Len(x.c.sd[k].h.j.q) : x.c.sd[k].h.j.now - x.c.sd[k].h.j.q[i].at <= 60000 \/ x.c.sd[k].h.j.closed
    \* a digit is not heard more often than it was sent
    /\ Len(x.digs[k]) <= Len(SelectSeq(o.pk, LAMBDA p : p.kind = "digit" /\ p.m))
    \* packets are numbered one by one, time does not go back in the sound
    /\ \A i \in 1..Len(o.pk) : o.pk[i].sn = i - 1
    /\ \A i, j \in 1..Len(o.pk) : (i < j /\ o.pk[i].kind = "audio" /\ o.pk[j].kind = "audio") => o.pk[i].ts < o.pk[j].ts
=============================================================================
