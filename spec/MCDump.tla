------------------------------- MODULE MCDump -------------------------------
(* The taps of a chain, for every chain and every set of dumps: bytes pass the *)
(* places of the chain, and each file is written through a buffer.             *)
EXTENDS Dump, ModelDet
CONSTANTS MaxSaid, Sizes, Codecs, Rates
Chains == {[codec |-> k, crate |-> IF k = "own/24000" THEN 24000 ELSE 0, ext |-> x, enc |-> b, rate |-> r, on |-> on]
           : k \in Codecs, x \in {""}, b \in BOOLEAN, r \in Rates, on \in SUBSET {"media", "g722", "resample"}}
MStarts == {[new |-> TRUE]}
MOps(x) == IF "new" \in DOMAIN x THEN {[ev |-> "setup", c |-> c] : c \in Chains}
           ELSE IF x.d.closed THEN {}
           ELSE (IF x.times < MaxSaid THEN {[ev |-> "say", n |-> n] : n \in Sizes} ELSE {})
                \cup (IF x.d.fail THEN {[ev |-> "fail", on |-> FALSE]} ELSE {[ev |-> "fail", on |-> TRUE]})
                \cup (IF x.d.c.enc THEN {[ev |-> "close"]} ELSE {})
\* the bytes at a place when so many samples or bytes went in; a resampler keeps the duration
\* and may hold some samples back until it is closed
Held == 16
AtCodec(d, y) == IF d.c.enc THEN LET n == d.said \div 2
                                     m == (n * (ChainRate(d.c) \div 1000)) \div (d.c.rate \div 1000)
                                 IN 2 * (IF Resampled(d.c) /\ ~d.closed THEN (IF m > Held THEN m - Held ELSE 0) ELSE m)
                 ELSE d.said * PerByte(d.c)
At(d, p) == CASE p = 1 -> IF d.c.enc THEN d.said
                          ELSE LET m == ((AtCodec(d, 0) \div 2) * (d.c.rate \div 1000)) \div (ChainRate(d.c) \div 1000) IN
                               2 * (IF Resampled(d.c) THEN (IF m > Held THEN m - Held ELSE 0) ELSE m)
              [] p = 2 -> AtCodec(d, 0)
              [] p = 3 -> IF d.c.enc THEN AtCodec(d, 0) \div PerByte(d.c) ELSE d.said
\* what is on the disk when so many bytes were written: whole buffers, or all
Disk(total, closed) == IF closed THEN total ELSE total - (total % Buffered)
MApply(x, e) ==
    IF e.ev = "setup" THEN [d |-> DInit(e.c), disk |-> [f \in Files(e.c) |-> 0], times |-> 0]
    ELSE LET d == DApply(x.d, e) IN
         [d |-> d, disk |-> [f \in Files(d.c) |-> Disk(At(d, f.pos), d.closed)], times |-> x.times + (IF e.ev = "say" THEN 1 ELSE 0)]
MView(x) == x
MGood(x) == "new" \in DOMAIN x \/
    (/\ \A f \in Files(x.d.c) :
          /\ f.kind \in {g.kind : g \in Files(x.d.c)} /\ \A g \in Files(x.d.c) : g.kind = f.kind => g = f
          /\ LenOK(x.disk[f], At(x.d, f.pos), x.d.closed)
     \* the same place, the same file; a chain without a resampler has one place less
     /\ \A f, g \in Files(x.d.c) : f.pos = g.pos => x.disk[f] = x.disk[g]
     /\ ~Resampled(x.d.c) => At(x.d, 1) - At(x.d, 2) \in 0..3
     \* every place of a chain can be seen
     /\ x.d.c.on = {"media", "g722", "resample"} /\ IsG722(x.d.c) /\ Resampled(x.d.c) => {f.pos : f \in Files(x.d.c)} = 1..3
     \* nothing is dumped that was not asked for
     /\ x.d.c.on = {} => Files(x.d.c) = {})
=============================================================================
