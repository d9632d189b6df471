------------------------- MODULE TraceRtpSessionPar -------------------------
(* Free running goroutines; nothing may be lost because the senders limit the *)
(* packets in flight: each stream is a FIFO queue between sender and reader,   *)
(* and so is the way from a writer to the connection.                         *)
EXTENDS TraceDet
Ids(e) == (0..(e.streams - 1)) \cup (100..(99 + e.writers))
QInit(e) == [q |-> [k \in Ids(e) |-> <<>>], known |-> {}, closing |-> FALSE, closed |-> FALSE, eofs |-> [k \in Ids(e) |-> 0], readers |-> e.readers,
             acceptors |-> e.acceptors, refused |-> {}]
Ours(x) == {k \in DOMAIN x.q : k < 100}
QStep(x, e) ==
    CASE e.ev = "sent" -> [st |-> [x EXCEPT !.q[e.ssrc] = Append(@, e.id)], obs |-> [none |-> 0]]
      [] e.ev = "accepted" -> [st |-> [x EXCEPT !.known = @ \cup {e.ssrc}], obs |-> [none |-> 0],
                               rel |-> [order |-> e.ssrc \in Ours(x) /\ e.ssrc \notin x.known]]
      [] e.ev \in {"recv", "wire"} ->
             LET at == IF e.ssrc \in DOMAIN x.q THEN {i \in 1..Len(x.q[e.ssrc]) : x.q[e.ssrc][i] = e.id} ELSE {}
                 ok == at # {} /\ (1 \in at \/ (x.readers > 1 /\ e.ev = "recv"))
                 i == CHOOSE i \in at : \A k \in at : i <= k
             IN [st |-> IF ok THEN [x EXCEPT !.q[e.ssrc] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))] ELSE x,
                 obs |-> [whole |-> TRUE], rel |-> [order |-> ok]]
      \* a write fails only when the session is closed, and then nothing of it is sent
      [] e.ev = "refused" -> [st |-> [x EXCEPT !.q[e.ssrc] = <<>>], obs |-> [none |-> 0],
                              rel |-> [order |-> x.closing /\ x.q[e.ssrc] = <<e.id>>]]
      [] e.ev = "alldone" -> [st |-> x, obs |-> [none |-> 0],
                              rel |-> [order |-> \A k \in Ours(x) : x.q[k] = <<>>]]
      [] e.ev = "closing" -> [st |-> [x EXCEPT !.closing = TRUE], obs |-> [none |-> 0]]
      [] e.ev = "closed" -> [st |-> [x EXCEPT !.closed = TRUE], obs |-> [none |-> 0]]
      [] e.ev = "acceptedlate" -> [st |-> x, obs |-> [none |-> 0], rel |-> [order |-> FALSE]]
      [] e.ev = "acceptend" -> [st |-> [x EXCEPT !.acceptors = @ - 1], obs |-> [none |-> 0], rel |-> [order |-> x.closing]]
      [] e.ev = "eof" -> [st |-> [x EXCEPT !.eofs[e.ssrc] = @ + 1], obs |-> [eof |-> TRUE],
                          rel |-> [order |-> x.closing /\ e.ssrc \in x.known /\ x.eofs[e.ssrc] < x.readers]]
      \* what several readers of one stream got: each of them in order, and everything once in all
      [] e.ev = "many" -> [st |-> x, obs |-> [whole |-> TRUE],
                           rel |-> [order |-> LET k == DOMAIN e.got
                                                  range(q) == {q[i] : i \in DOMAIN q}
                                              IN  /\ \A r \in k : \A i \in 1..(Len(e.got[r]) - 1) : e.got[r][i] < e.got[r][i + 1]
                                                  /\ UNION {range(e.got[r]) : r \in k} = 0..(e.n - 1)
                                                  /\ \A r, w \in k : r < w => range(e.got[r]) \cap range(e.got[w]) = {}]]
      \* everybody came back
      [] e.ev = "end" -> [st |-> x, obs |-> [none |-> 0],
                          rel |-> [order |-> x.closed /\ x.acceptors = 0 /\ (\A k \in DOMAIN x.q : x.eofs[k] = IF k \in x.known THEN x.readers ELSE 0)
                                             /\ \A k \in DOMAIN x.q : k >= 100 => x.q[k] = <<>>]]
=============================================================================
