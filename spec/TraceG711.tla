------------------------------ MODULE TraceG711 ------------------------------
EXTENDS G711, TraceDet
T(x) == Tab(x.law)
\* the codes of q
Codes(x, q, out) == /\ Len(out) = Len(q)
                    /\ \A i \in 1..Len(q) : Near(x.law, out[i], q[i])
Values(x, q) == [i \in 1..Len(q) |-> T(x)[q[i]]]
GStep(x, e) ==
    CASE e.ev = "encall" ->
           LET cs == e.o.codes IN
           [st |-> [x EXCEPT !.last = T(x)[cs[Len(cs)]], !.tab = @ @@ [v \in {e.from + i : i \in 0..(e.n - 1)} |-> cs[v - e.from + 1]]],
            obs |-> [beyond |-> TRUE],
            rel |-> [codes |-> /\ Len(cs) = e.n
                               /\ \A i \in 1..e.n : Near(x.law, cs[i], e.from + i - 1)
                               \* never decreasing
                               /\ T(x)[cs[1]] >= x.last
                               /\ \A i \in 2..e.n : T(x)[cs[i]] >= T(x)[cs[i - 1]]]]
      [] e.ev = "decall" ->
           [st |-> x, obs |-> [values |-> Values(x, [i \in 1..256 |-> i - 1])],
            rel |-> [back |-> \* every code is coded as itself, except the second zero
                       \A c \in 0..255 : e.o.back[c + 1] = c \/ (T(x)[c] = 0 /\ T(x)[e.o.back[c + 1]] = 0)]]
      [] e.ev = "enc" ->
           \* the error of the writer below is returned, which takes nothing back
           [st |-> x, obs |-> [in |-> TRUE, err |-> e.fail],
            rel |-> [frames |-> Len(e.o.frames) = 1 /\ Codes(x, e.xs, e.o.frames[1]), method |-> Codes(x, e.xs, e.o.method)]]
      [] e.ev = "dec" ->
           LET n == [x EXCEPT !.n = @ + Len(e.xs)] IN
           IF x.rate = 8000
           THEN [st |-> n, obs |-> [in |-> TRUE, err |-> e.fail, pcm |-> <<Values(x, e.xs)>>, method |-> Values(x, e.xs)]]
           ELSE [st |-> n, obs |-> [in |-> TRUE, err |-> e.fail /\ e.o.came, method |-> Values(x, e.xs)],
                 rel |-> [total |-> e.o.total <= ((n.n * (x.rate \div 100)) \div 80) + 1]]
      [] e.ev = "rtp" ->
           [st |-> [x EXCEPT !.seq = (@ + 1) % 65536, !.ts = @ + 160],
            obs |-> [pkts |-> <<<<IF x.law = "a" THEN 8 ELSE 0, Len(e.xs), x.seq, x.ts>>>>, pcm |-> <<Values(x, e.o.codes)>>],
            rel |-> [codes |-> Codes(x, e.xs, e.o.codes)]]
      [] e.ev = "close" ->
           [st |-> x, obs |-> [err |-> <<e.fail, e.fail>>, closed |-> <<1, 1>>],
            rel |-> [total |-> e.o.total = (x.n * (x.rate \div 100)) \div 80]]
      [] e.ev = "encrate" ->
           [st |-> x, obs |-> IF e.rate = 8000 THEN [z |-> 0] ELSE [panic |-> TRUE]]
GInitOf(e) == [law |-> e.law, rate |-> e.rate, last |-> -40000, n |-> 0, seq |-> 0, ts |-> 0, tab |-> <<>>]
=============================================================================
