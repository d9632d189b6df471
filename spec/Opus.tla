-------------------------------- MODULE Opus --------------------------------
(* The Opus decoder (package opus) around the codec itself: which packets are  *)
(* decoded, skipped or reported, and what becomes of the channels.             *)
EXTENDS Integers, Sequences, Pcm

MaxErrors == 5
OInit(rate, target) == [rate |-> rate, target |-> target, errs |-> 0, ch |-> 0, clean |-> TRUE, err |-> FALSE, out |-> "", closed |-> 0, fail |-> FALSE]
OBegin(x) == [x EXCEPT !.err = FALSE, !.out = ""]
\* what is written below: the sound as it is, doubled or averaged
Adapt(x, ch) == IF ch = x.target THEN "same" ELSE IF ch < x.target THEN "double" ELSE "average"
OPkt(x, ch) == [OBegin(x) EXCEPT !.errs = 0, !.ch = ch, !.out = Adapt(x, ch), !.err = x.fail]
OBad(x, ch) == IF x.errs >= MaxErrors THEN [OBegin(x) EXCEPT !.err = TRUE] ELSE [OBegin(x) EXCEPT !.errs = @ + 1]
OApply(x, e) ==
    CASE e.ev = "pkt"   -> OPkt(x, e.ch)
      [] e.ev = "bad"   -> OBad(x, e.ch)
      [] e.ev = "empty" -> OBegin(x)
      [] e.ev = "fail"  -> [OBegin(x) EXCEPT !.fail = e.on]
      [] e.ev = "close" -> [OBegin(x) EXCEPT !.closed = @ + 1, !.err = x.fail]
OInv(x) == /\ x.errs \in 0..MaxErrors
           /\ x.err /\ ~x.fail => x.errs = MaxErrors
           /\ x.out # "" => x.errs = 0
=============================================================================
