------------------------------ MODULE MCPipe ------------------------------
(* All interleavings of a few writers, readers and closers.                   *)
EXTENDS Pipe, TLC
CONSTANTS Writers, Readers, Closers, Sizes, MaxLen, Rounds
VARIABLES x, todo, wrote, got, okw, failed
vars == <<x, todo, wrote, got, okw, failed>>


N == Writers + Readers + Closers
IsW(t) == t < Writers
IsR(t) == t >= Writers /\ t < Writers + Readers
\* elements are <<thread, number>>
Data(t, k, n) == [i \in 1..n |-> <<t, k, i>>]

Init == /\ x = PipeInit(N)
        /\ todo = [t \in 0..(N - 1) |-> IF IsW(t) \/ IsR(t) THEN Rounds ELSE 1]
        /\ wrote = <<>>           \* elements in the order in which their write got its turn
        /\ got = <<>>             \* elements in the order in which they were handed over
        /\ okw = {}               \* calls that reported success
        /\ failed = 0

Begin(t) ==
    /\ x.th[t].pc = "idle" /\ todo[t] > 0
    /\ todo' = [todo EXCEPT ![t] = @ - 1]
    /\ \/ IsW(t) /\ \E n \in 0..MaxLen : x' \in Call(x, t, "w", Data(t, todo[t], n), 0, "")
       \/ IsR(t) /\ \E n \in Sizes : x' \in Call(x, t, "r", <<>>, n, "")
       \/ ~IsW(t) /\ ~IsR(t) /\ \E k \in {"cw", "cr"}, e \in {"", "err"} : x' \in Call(x, t, k, <<>>, 0, e)
    /\ UNCHANGED <<wrote, got, okw, failed>>

Finish(t) == /\ x.th[t].pc = "back"
             /\ x' \in Return(x, t)
             /\ okw' = IF IsW(t) /\ x.th[t].err = "" THEN okw \cup {<<t, todo[t] + 1>>} ELSE okw
             /\ failed' = failed
             /\ UNCHANGED <<todo, wrote, got>>

Step == /\ x' \in Inner(x)
        /\ wrote' = IF x'.lock # x.lock /\ x'.lock # -1 THEN wrote \o x.th[x'.lock].data ELSE wrote
        /\ LET moved == {t \in DOMAIN x.th : IsR(t) /\ x.th[t].pc = "recv" /\ x'.th[t].pc = "back" /\ x'.th[t].err = ""}
           IN got' = IF moved = {} THEN got ELSE got \o x'.th[CHOOSE t \in moved : TRUE].data
        /\ UNCHANGED <<todo, okw, failed>>

Next == Step \/ \E t \in 0..(N - 1) : Begin(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Step) /\ \A t \in 0..(N - 1) : WF_vars(Finish(t))

\* what is handed over is written, in order, never twice, and writes do not mix: a part may be missing
\* only at the end of a write that failed

Of(q, c) == SelectSeq(q, LAMBDA v : v[1] = c[1] /\ v[2] = c[2])
CallsIn(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Exact ==
    /\ \A c \in CallsIn(got) : IsPrefix(Of(got, c), Of(wrote, c))
    /\ \A i, j \in 1..Len(got) : i < j /\ got[i][1] = got[j][1] /\ got[i][2] = got[j][2] =>
           \A m \in i..j : got[m][1] = got[i][1] /\ got[m][2] = got[i][2]
    /\ \A c \in okw : Of(got, c) = Of(wrote, c)
Mutex == x.lock # -1 => x.th[x.lock].k = "w" /\ x.th[x.lock].pc = "send"
Sticky == [][x.rerr # "" => x'.rerr = x.rerr]_vars /\ [][x.werr # "" => x'.werr = x.werr]_vars
\* after closing, every call comes back
Unblock == \A t \in 0..(N - 1) : (x.done /\ x.th[t].pc # "idle") ~> (x.th[t].pc = "idle")
=============================================================================
