------------------------------- MODULE Frames -------------------------------
(* The frame splitter (buffers.go): writes of any size become frames of one    *)
(* size.  The writer below can be made to fail once, at a call of its own.     *)
EXTENDS Integers, Sequences

\* failAt: -1, or how many calls of the writer below still succeed before one fails
FInit(size) == [size |-> size, buf |-> <<>>, failAt |-> -1, out |-> <<>>, err |-> FALSE, closed |-> 0, inn |-> <<>>, sent |-> <<>>, did |-> FALSE]
FBegin(x) == [x EXCEPT !.out = <<>>, !.err = FALSE, !.did = TRUE]

\* one frame for the writer below: it is gone even if the writer fails
Give(x, n) ==
    LET f == SubSeq(x.buf, 1, n) bad == x.failAt = 0 IN
    [x EXCEPT !.buf = SubSeq(@, n + 1, Len(@)), !.out = Append(@, <<f, bad>>), !.err = bad, !.sent = @ \o f,
              !.failAt = IF @ >= 0 THEN @ - 1 ELSE @]
RECURSIVE Drain(_)
Drain(x) == IF x.err \/ Len(x.buf) < x.size THEN x ELSE Drain(Give(x, x.size))

FWrite(x, xs) == LET y == FBegin(x) IN Drain([y EXCEPT !.buf = @ \o xs, !.inn = @ \o xs])
FClose(x, cerr) ==
    LET y == Drain(FBegin(x))
        z == IF y.err \/ y.buf = <<>> THEN y ELSE Give(y, Len(y.buf))
    IN  [z EXCEPT !.closed = @ + 1, !.err = @ \/ cerr]
FFail(x, n) == [FBegin(x) EXCEPT !.failAt = n, !.did = FALSE]

FApply(x, e) ==
    CASE e.ev = "write" -> FWrite(x, e.xs)
      [] e.ev = "close" -> FClose(x, e.fail)
      [] e.ev = "fail"  -> FFail(x, e.n)

\* nothing is lost, invented or reordered
FInv(x) == /\ x.sent \o x.buf = x.inn
           /\ x.did /\ x.closed > 0 /\ ~x.err => x.buf = <<>>
           /\ x.did /\ ~x.err => Len(x.buf) < x.size
           /\ \A i \in 1..Len(x.out) : Len(x.out[i][1]) = x.size \/ (x.closed > 0 /\ i = Len(x.out) /\ x.out[i][1] # <<>>)
=============================================================================
