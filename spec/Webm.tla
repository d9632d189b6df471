-------------------------------- MODULE Webm --------------------------------
(* WebM recordings (package webm): every frame is a key block of the only      *)
(* track, at the time when it begins.  The file is written in the background:  *)
(* bad says that a write to it has failed, which every later call reports.     *)
EXTENDS Integers, Sequences, Writers

\* a frame lasts ms + us / 1000 milliseconds
BInit(cfg) == [cfg |-> cfg, frames |-> <<>>, k |-> 0, blocks |-> <<>>, bad |-> FALSE]
At(x, k) == (k * x.cfg.ms) + ((k * x.cfg.us) \div 1000)
RECURSIVE Add(_, _, _)
Add(x, b, n) == IF n = 0 THEN x ELSE Add([x EXCEPT !.blocks = Append(@, <<At(x, x.k), TRUE, 0, 1, b>>), !.k = @ + 1], b, n - 1)
Track(x) == [number |-> 1, type |-> 2, codec |-> IF x.cfg.codec = "pcm" THEN "A_PCM/INT/LIT" ELSE "A_OPUS",
             dur |-> (x.cfg.ms * 1000) + x.cfg.us, channels |-> x.cfg.channels, rate |-> x.cfg.rate, doc |-> "webm", scale |-> 1000000, tracks |-> 1]
\* nothing is written any more once the file has failed
BWrite(x, xs, n) == IF x.bad THEN x ELSE Add(x, IF x.cfg.codec = "pcm" THEN Bytes(xs) ELSE xs, n)
=============================================================================
