----------------------------- MODULE TraceDump -----------------------------
EXTENDS Dump, TraceDet
Elems(q) == {q[i] : i \in 1..Len(q)}
VInit(e) == DInit([codec |-> e.codec, crate |-> e.crate, ext |-> e.ext, enc |-> e.enc, rate |-> e.rate, on |-> Elems(e.on)])
\* <<kind, rate, ext, length, digest, digest of as much of the PCM, digest of as much of the packets>>
Name(f) == <<f[1], f[2], f[3]>>
PosOf(c, f) == (CHOOSE g \in Files(c) : g.kind = f[1]).pos
VStep(x, e) ==
    IF e.ev = "make" THEN
        IF Own(x.c) /\ x.c.crate <= 0 THEN [st |-> x, obs |-> [panic |-> "invalid sample rate"]]
        ELSE [st |-> x, obs |-> [quiet |-> TRUE, err |-> FALSE, info |-> IF Own(x.c) THEN <<x.c.codec, x.c.crate, IF e.clock = 0 THEN x.c.crate ELSE e.clock, e.type, e.static, e.prio, x.c.ext>>
                                          ELSE <<x.c.codec, InfoRate(x.c), 8000, IF x.c.codec = "PCMU/8000" THEN 0 ELSE IF x.c.codec = "PCMA/8000" THEN 8 ELSE 9,
                                                 TRUE, e.o.info[6], Ext(x.c)>>]]
    ELSE
    LET n == DApply(x, e) c == x.c fs == e.o.files IN
    [st |-> n,
     obs |-> [quiet |-> TRUE] @@ (IF e.ev = "fail" THEN [err |-> FALSE] ELSE [quiet |-> TRUE]),
     rel |-> [names |-> /\ Len(fs) = Cardinality(Files(c))
                        /\ {Name(f) : f \in Elems(fs)} = {<<g.kind, g.rate, g.ext>> : g \in Files(c)},
              whole |-> /\ (IF c.enc THEN e.o.pcm ELSE e.o.rtp) = n.said
                        /\ \A f \in Elems(fs) :
                            LET p == PosOf(c, f) IN
                            /\ p = 1 \/ (p = 2 /\ ~Resampled(c)) => LenOK(f[4], e.o.pcm, n.closed) /\ f[5] = f[6]
                            /\ p = 3 => LenOK(f[4], e.o.rtp, n.closed) /\ f[5] = f[7]
                            /\ p = 2 /\ n.closed => f[4] \div PerByte(c) = e.o.rtp
                        /\ \A f \in Elems(fs), g \in Elems(fs) : PosOf(c, f) = PosOf(c, g) => f[4] = g[4] /\ f[5] = g[5],
              failed |-> IF e.ev = "say" THEN /\ e.o.err => n.fail
                                              /\ n.fail /\ e.o.passed => e.o.err
                                              /\ ~Resampled(c) => e.o.passed
                         ELSE e.o.err => n.fail]]
=============================================================================
