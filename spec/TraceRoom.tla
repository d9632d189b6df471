------------------------------ MODULE TraceRoom ------------------------------
(* Units of sound are 10 ms of one G.711 code.                                 *)
EXTENDS Room, G711, TraceDet

ROf(e) == [r |-> RInit([sz |-> 2, frames |-> e.frames, tick |-> 20000, chan |-> 0]), n |-> 0, law |-> e.law, laws |-> <<>>]

\* a unit u of caller k, as PCM
Values(law, us) == [i \in 1..Len(us) |-> Tab(law)[us[i]]]
RApply(x, e) ==
    CASE e.ev = "join"  -> RJoin(x.r)
      [] e.ev = "rtp"   -> RRtp(x.r, e.c + 1, e.sn, e.pad, IF e.other THEN <<>> ELSE Values(x.laws[e.c + 1], e.us))
      [] e.ev = "leave" -> RLeave(x.r, e.c + 1)
      [] e.ev = "stop"  -> RStop(x.r)
      [] e.ev = "sleep" -> RSleep(x.r, e.d)

\* the packets that went out: <<time, sn, ts, marker, codes>>
PacketsOK(x, r, ps) ==
    /\ Len(ps) = Len(r.m.out)
    /\ \A i \in 1..Len(ps) :
          /\ ps[i][1] = r.m.out[i][1]
          /\ ps[i][2] = (x.n + i - 1) % 65536
          /\ ps[i][3] = 160 * (x.n + i - 1)
          /\ ~ps[i][4]
          /\ Len(ps[i][5]) = Len(r.m.out[i][2])
          /\ \A j \in 1..Len(ps[i][5]) : Near(x.law, ps[i][5][j], r.m.out[i][2][j])
RStep(x, e) ==
    LET r == RApply(x, e) IN
    [st |-> [x EXCEPT !.r = r, !.n = @ + Len(r.m.out), !.laws = IF e.ev = "join" /\ ~x.r.m.stopped THEN Append(@, e.law) ELSE @],
     obs |-> [count |-> Len(r.m.out), times |-> RTimes(r), tracks |-> <<r.m.tracks, r.m.total>>, err |-> "",
              nil |-> e.ev = "join" /\ x.r.m.stopped,
              stats |-> <<r.m.restarts, 80 * r.m.dsamples, 80 * r.m.msamples, r.m.oframes, r.m.werr>>],
     rel |-> [packets |-> PacketsOK(x, r, e.o.packets)]]
Inv == l > 1 => MInvQueues(s.r.m) /\ MInvTracks(s.r.m) /\ MInvWhole(s.r.m)
=============================================================================
