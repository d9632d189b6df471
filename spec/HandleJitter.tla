---------------------------- MODULE HandleJitter ----------------------------
(* The jitter buffer in front of an RTP handler: packets are handed over one   *)
(* by one in the order and at the time the jitter buffer releases them; the    *)
(* first handler error since the last call is returned by the next call.       *)
EXTENDS Jitter

HStart(bad) == [j |-> InitState(60000, 0), err |-> 0, bad |-> bad, closes |-> 0, loss |-> <<>>]

RECURSIVE Flat(_)
\* <<time, id>> of every packet handed over
Flat(out) == IF out = <<>> THEN <<>>
             ELSE [i \in 1..Len(out[1][2]) |-> <<out[1][1], out[1][2][i]>>] \o Flat(Tail(out))

FirstBad(bad, ps) == LET q == SelectSeq(ps, LAMBDA p : \E i \in 1..Len(bad) : bad[i] = p[2])
                     IN IF q = <<>> THEN 0 ELSE q[1][2]

Go(x, j) == LET ps == Flat(j.out)
            IN  [x EXCEPT !.j = j, !.err = IF @ # 0 THEN @ ELSE FirstBad(x.bad, ps)]

HStep(x, e) ==
    CASE e.ev = "rtp" ->
           LET n == Go(x, Push(x.j, [id |-> e.id, sn |-> e.sn, at |-> x.j.now, st |-> TRUE, en |-> TRUE, pad |-> e.pad, dis |-> FALSE]))
           IN [st |-> [n EXCEPT !.err = 0],
               obs |-> [out |-> Flat(n.j.out), ret |-> n.err, whole |-> TRUE, closes |-> n.closes, cbs |-> n.j.cbs]]
      [] e.ev = "sleep" ->
           LET n == Go(x, Advance(x.j, e.d))
           IN [st |-> n, obs |-> [out |-> Flat(n.j.out), ret |-> 0, whole |-> TRUE, closes |-> n.closes, cbs |-> n.j.cbs]]
      [] e.ev = "close" ->
           \* the handler may take its time to close: nothing comes any more
           LET n == [x EXCEPT !.j = Advance(Close(x.j), e.d), !.closes = @ + 1]
           IN [st |-> n, obs |-> [out |-> Flat(n.j.out), ret |-> 0, whole |-> TRUE, closes |-> n.closes, cbs |-> n.j.cbs]]
=============================================================================
