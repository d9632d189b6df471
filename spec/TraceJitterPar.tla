--------------------------- MODULE TraceJitterPar ---------------------------
(* A jitter buffer used by several goroutines at the same instant.  Which call *)
(* comes first is open; whatever the order is, samples are whole and leave in  *)
(* sequence, each packet once, one callback at a time, and nothing is lost     *)
(* from the accounts.                                                          *)
EXTENDS Jitter, TraceDet
PInit(e) == [pk |-> e.pk, out |-> {}, last |-> -1, loss |-> <<0, 0>>, samples |-> 0, media |-> 0,
             asked |-> [t \in 0..(e.threads - 1) |-> <<0, 0, <<0, 0>>>>]]
Whole(x, ids) ==
    LET k == [i \in 1..Len(ids) |-> x.pk[ids[i] + 1]] IN
    /\ ids # <<>>
    /\ \A i \in 1..Len(k) : ~k[i].pad
    /\ \A i \in 1..Len(ids) : ids[i] \notin x.out
    /\ \A i, j \in 1..Len(ids) : i # j => ids[i] # ids[j]
    \* paddings inside a sample are not handed out
    /\ \A i \in 1..(Len(k) - 1) : \/ k[i + 1].sn = NextSN(k[i].sn)
                                  \/ \A d \in 1..(((k[i + 1].sn - k[i].sn) % M) - 1) :
                                        \E z \in 1..Len(x.pk) : x.pk[z].pad /\ x.pk[z].sn = (k[i].sn + d) % M
    /\ k[1].st /\ k[Len(k)].en
    /\ \A i \in 1..(Len(k) - 1) : ~k[i].en
Order(x, ids) == x.last = -1 \/ LET n == x.pk[ids[1] + 1].sn IN n # x.last /\ Before(x.last, n)
\* statistics are at least those of the moment at which they were asked for
Account(x, e) ==
    LET st == e.o.stats q == x.asked[e.t] IN
    /\ e.o.ended <= st[1] /\ st[1] <= e.o.begun
    /\ st[5] + st[4] <= st[1]
    /\ st[5] >= q[2]
    /\ st[6] >= q[1]
    /\ st[3] >= q[3][1] /\ st[4] >= q[3][2]
PStep(x, e) ==
    CASE e.ev = "sample" ->
           [st |-> [x EXCEPT !.out = @ \cup {e.o.ids[i] : i \in 1..Len(e.o.ids)}, !.last = x.pk[e.o.ids[Len(e.o.ids)] + 1].sn,
                             !.samples = @ + 1, !.media = @ + Len(e.o.ids)],
            obs |-> [alone |-> TRUE], rel |-> [ids |-> Whole(x, e.o.ids) /\ Order(x, e.o.ids)]]
      [] e.ev = "loss" ->
           [st |-> [x EXCEPT !.loss = e.o.n], obs |-> [alone |-> TRUE],
            rel |-> [stats |-> e.o.n # x.loss /\ e.o.n[1] >= x.loss[1] /\ e.o.n[2] >= x.loss[2]]]
      [] e.ev = "ask" -> [st |-> [x EXCEPT !.asked[e.t] = <<x.samples, x.media, x.loss>>], obs |-> [none |-> 0]]
      [] e.ev = "stats" -> [st |-> x, obs |-> [none |-> 0], rel |-> [stats |-> Account(x, e)]]
      \* long after the last call: nothing is left
      [] OTHER ->
           [st |-> x, obs |-> [size |-> 0],
            rel |-> [stats |-> LET st == e.o.stats
                                   npad == e.o.pads
                               IN /\ Account(x, e) /\ e.o.begun = e.o.ended
                                  /\ st[2] = npad
                                  /\ <<st[3], st[4]>> = x.loss
                                  /\ st[5] + st[4] + npad >= st[1]
                                  /\ st[5] <= x.media + npad]]
=============================================================================
