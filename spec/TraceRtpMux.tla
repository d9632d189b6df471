---------------------------- MODULE TraceRtpMux ----------------------------
EXTENDS RtpMux, TraceDet
XStep(x, e) == LET n == MxApply(x, e) IN [st |-> n, obs |-> [hits |-> n.hits, err |-> n.err],
                                         rel |-> [desc |-> {e.o.desc[i] : i \in DOMAIN e.o.desc} = MxDesc(n) /\ Len(e.o.desc) = Cardinality(MxDesc(n))]]
XInit(e) == MxInit(e.def)
Inv == l > 1 => MxInvOne(s) /\ MxInvErr(s)
=============================================================================
