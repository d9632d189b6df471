----------------------------- MODULE TraceCall -----------------------------
EXTENDS Call, TraceDet
Pk(q) == [i \in 1..Len(q) |-> [kind |-> q[i][1], sn |-> q[i][2], ts |-> q[i][3], m |-> q[i][4], len |-> q[i][5], dig |-> q[i][6]]]
VInit(e) == [c |-> CallInit, heard |-> <<0, 0>>]

\* the observations after a call: what each end handed over, and after what was sent
Obs(x, hs) == [heard |-> hs, digits |-> [k \in 1..2 |-> DigitsIn(x.c.sd[3 - k], hs[k])],
               pcm |-> <<TRUE, TRUE>>, coded |-> <<TRUE, TRUE>>, ends |-> [k \in 1..2 |-> Ends(x.c.sd[k])]]
\* how many samples an end has heard, if nothing is resampled
TotalOK(x, e) == \A k \in 1..2 : IF x.c.out[k] = Rate(x.c.codec) THEN e.o.total[k] = x.heard[k] * (Rate(x.c.codec) \div 50)
                                 ELSE e.o.total[k] <= x.heard[k] * (x.c.out[k] \div 50) + 1
\* sound in packets: at once if nothing is resampled, otherwise no more than there is, and not much less
SoundOK(x) == \A k \in 1..2 : LET n == NAudio(x.c.sd[k].pk) IN
                  IF x.c.in[k] = Rate(x.c.codec) THEN n = x.c.sd[k].said ELSE n <= x.c.sd[k].said /\ n >= x.c.sd[k].said - 4

\* c: the call after what was done, hs: what was handed over
After(x, c, hs, e, err) ==
    LET a == Sent(c.sd[1], Pk(e.o.sent[1]))
        b == Sent(c.sd[2], Pk(e.o.sent[2]))
        n == [c |-> [c EXCEPT !.sd = <<a[1], b[1]>>],
              heard |-> [k \in 1..2 |-> x.heard[k] + Frames(c.sd[3 - k], hs[k])]]
    IN [st |-> n, obs |-> Obs(n, hs) @@ [err |-> err],
        rel |-> [sent |-> a[2] /\ b[2] /\ SoundOK(n), total |-> TotalOK(n, e)]]

VStep(x, e) ==
    IF e.ev = "setup" THEN
        LET a == Elems(e.ena) b == Elems(e.enb)
            v == Verdict(a, b, e.enca, e.encb)
            c == Setup(x.c, a, b, e.enca, e.encb, e.in, e.out)
        IN [st |-> [x EXCEPT !.c = c], obs |-> [err |-> v] @@ IF c.up THEN Obs([x EXCEPT !.c = c], <<<<>>, <<>>>>) ELSE [err |-> v],
            rel |-> [kinds |-> c.up => /\ e.o.kinds[1] = e.o.kinds[2]
                                       /\ e.o.kinds[1][1] = c.codec /\ e.o.kinds[1][4] = c.enc
                                       /\ (e.o.kinds[1][3] # 0) = c.digits /\ (c.digits => e.o.kinds[1][2] # e.o.kinds[1][3])]]
    ELSE IF ~x.c.up THEN [st |-> x, obs |-> [z |-> 0]]
    ELSE LET k == e.d + 1 c == x.c IN
    CASE e.ev = "say" -> IF c.sd[k].open THEN After(x, [c EXCEPT !.sd[k].said = @ + 1], <<<<>>, <<>>>>, e, "")
                         ELSE After(x, c, <<<<>>, <<>>>>, e, IF c.in[k] = Rate(c.codec) THEN "write" ELSE e.o.err)
      [] e.ev = "digit" -> After(x, IF c.digits THEN [c EXCEPT !.sd[k].todo = @ \o e.ds, !.sd[k].loose = TRUE] ELSE c, <<<<>>, <<>>>>, e, IF c.digits THEN "" ELSE "none")
      [] e.ev = "net" -> LET r == Arrive(c, 3 - k, e.i) IN
                         After(x, r[1], [i \in 1..2 |-> IF i = 3 - k THEN r[2] ELSE <<>>], e, "")
      [] e.ev = "sleep" -> LET p == Elapse(c.sd[1], e.t) q == Elapse(c.sd[2], e.t) IN
                           After(x, [c EXCEPT !.sd = <<p[1], q[1]>>], <<p[2], q[2]>>, e, "")
      \* an end sets its media up again: its coder and its decoder begin anew, nothing else does
      [] e.ev = "again" -> After(x, c, <<<<>>, <<>>>>, e, "")
      [] e.ev = "hangup" -> After(x, [c EXCEPT !.sd[k] = HangUp(@)], <<<<>>, <<>>>>, e, "")
=============================================================================
