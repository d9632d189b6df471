-------------------------------- MODULE Ring --------------------------------
(* The ring buffer (package ring): a FIFO queue of bounded capacity that       *)
(* drops its oldest elements when it overflows.                               *)
EXTENDS Integers, Sequences

\* rd only helps the bounded model: it tells apart the positions of the content in the ring
RingInit(cap) == [cap |-> cap, q |-> <<>>, rd |-> 0]

RMin(a, b) == IF a < b THEN a ELSE b
RMax(a, b) == IF a > b THEN a ELSE b
LastN(q, n) == SubSeq(q, Len(q) - n + 1, Len(q))
FirstN(q, n) == SubSeq(q, 1, n)

Take(s, n) == [s EXCEPT !.q = SubSeq(@, n + 1, Len(@)), !.rd = (@ + n) % s.cap]
\* content after appending xs: the newest cap elements
Put(s, xs) == LET all == s.q \o xs
                  n == RMax(0, Len(all) - s.cap)
              IN [s EXCEPT !.q = LastN(all, RMin(s.cap, Len(all))), !.rd = (@ + n) % s.cap]

Empty(s) == s.q = <<>>
Full(s) == Len(s.q) = s.cap

\* every call: [st |-> next state, ret |-> result]
RPush(s, v)    == [st |-> Put(s, <<v>>), ret |-> <<>>]
RTryPush(s, v) == IF Full(s) THEN [st |-> s, ret |-> <<FALSE>>] ELSE [st |-> Put(s, <<v>>), ret |-> <<TRUE>>]
RPop(s)        == IF Empty(s) THEN [st |-> s, ret |-> <<0>>] ELSE [st |-> Take(s, 1), ret |-> <<s.q[1]>>]
RTryPop(s)     == IF Empty(s) THEN [st |-> s, ret |-> <<0, FALSE>>] ELSE [st |-> Take(s, 1), ret |-> <<s.q[1], TRUE>>]
RPeek(s)       == [st |-> s, ret |-> <<IF Empty(s) THEN 0 ELSE s.q[1]>>]
RTryPeek(s)    == [st |-> s, ret |-> IF Empty(s) THEN <<0, FALSE>> ELSE <<s.q[1], TRUE>>]
\* result of Read: count, end of data, the caller's slice afterwards (-1 where it was not touched)
RRead(s, n)    ==
    IF n = 0 THEN [st |-> s, ret |-> <<0, FALSE, <<>>>>]
    ELSE LET k == RMin(n, Len(s.q))
         IN [st |-> Take(s, k), ret |-> <<k, k = 0, FirstN(s.q, k) \o [i \in 1..(n - k) |-> -1]>>]
RWrite(s, xs)  == [st |-> Put(s, xs), ret |-> <<Len(xs)>>]

RApply(s, e) ==
    CASE e.ev = "push"    -> RPush(s, e.v)
      [] e.ev = "trypush" -> RTryPush(s, e.v)
      [] e.ev = "pop"     -> RPop(s)
      [] e.ev = "trypop"  -> RTryPop(s)
      [] e.ev = "peek"    -> RPeek(s)
      [] e.ev = "trypeek" -> RTryPeek(s)
      [] e.ev = "read"    -> RRead(s, e.n)
      [] e.ev = "write"   -> RWrite(s, e.vs)

RInvBound(s) == Len(s.q) <= s.cap
=============================================================================
