------------------------------- MODULE MCDtmf -------------------------------
EXTENDS Dtmf, ModelDet
CONSTANTS Alphabet, Strings, StartTs

\* a failure is injected at some step, or the call is cancelled there
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE LET w == Words(n - 1) IN w \cup {Append(q, c) : q \in {v \in w : Len(v) = n - 1}, c \in Alphabet}

MEmpty == [phase |-> "new", d |-> <<>>, tr |-> <<>>]
MStarts == {MEmpty}
MOps(x) ==
    CASE x.phase = "new"  -> {[ev |-> "open", mode |-> m, events |-> v] : m \in {"none", "pcm", "rtp"}, v \in BOOLEAN}
      [] x.phase = "open" -> {[ev |-> "write", ts |-> ts, digits |-> w] : ts \in StartTs, w \in Words(Strings)}
      [] x.phase = "run"  -> {[ev |-> "tick"], [ev |-> "cancel"]}
                             \cup (IF x.d.audio THEN {[ev |-> "faila", on |-> TRUE]} ELSE {})
                             \cup (IF x.d.events THEN {[ev |-> "failr", on |-> TRUE]} \cup {[ev |-> "failr", at |-> n] : n \in {1, 2}} ELSE {})
      [] x.phase = "fail" -> {[ev |-> "tick"]}
      [] OTHER -> {}
\* the packets of events so far, in order; frames so far
Log(x, d) == [ev |-> x.tr.ev \o SelectSeq(d.pkts, LAMBDA p : p[3] = 101), fr |-> x.tr.fr \o d.frame, n |-> x.tr.n + 1]
MApply(x, e) ==
    LET d == DApply(x.d, e) IN
    CASE e.ev = "open"  -> [phase |-> "open", d |-> d, tr |-> [ev |-> <<>>, fr |-> <<>>, n |-> 0]]
      [] e.ev = "write" -> [phase |-> "run", d |-> d, tr |-> [ev |-> <<>>, fr |-> <<>>, n |-> 0, w |-> e.digits, ts |-> e.ts]]
      [] e.ev \in {"faila", "failr"} -> [x EXCEPT !.phase = "fail", !.d = d]
      [] OTHER -> [phase |-> IF d.on THEN x.phase ELSE "end", d |-> d, tr |-> Log(x, d) @@ x.tr]
MView(x) == x

\* ------------------------------------------------------------ what a receiver relies on
\* the groups of packets with one timestamp, in order
Groups(ev) == {ev[i][2] : i \in 1..Len(ev)}
Of(ev, t) == SelectSeq(ev, LAMBDA p : p[2] = t)
Valid(w) == SelectSeq(w, LAMBDA c : CodeOf(c) >= 0)
GroupOK(g, full) ==
    /\ g[1][4]                                                        \* the marker starts the event
    /\ \A i \in 2..Len(g) : i <= 13 => ~g[i][4]
    /\ \A i \in 2..Len(g) : g[i][5][1] = g[1][5][1]
    /\ \A i \in 1..Len(g) : g[i][5][3] = Frame * (IF i > ToneTicks THEN ToneTicks ELSE i)
    /\ \A i \in 1..Len(g) : g[i][5][2] = (i >= ToneTicks)             \* the end, repeated
    /\ Len(g) <= ToneTicks + 2
    /\ full => Len(g) = ToneTicks + 2
MGood(x) ==
    x.phase \in {"run", "end"} =>
      LET ev == x.tr.ev v == Valid(x.tr.w) full == x.phase = "end" /\ x.d.ret = "nil" IN
      /\ \A t \in Groups(ev) : GroupOK(Of(ev, t), full)
      /\ \A i \in 1..(Len(ev) - 1) : ev[i][2] <= ev[i + 1][2]
      /\ x.d.events /\ full => Cardinality(Groups(ev)) = Len(v)
      \* the digits in order
      /\ \A i, j \in 1..Len(ev) : i < j => ev[j][1] > ev[i][1]
      /\ full /\ x.d.audio => /\ Len(x.tr.fr) = x.tr.n - 1
                              /\ Len(SelectSeq(x.tr.fr, LAMBDA f : f # <<>>)) = ToneTicks * Len(v)
      /\ full /\ x.d.events => x.d.rtp.streams[x.d.ek].ts >= x.tr.ts
=============================================================================
