------------------------------ MODULE MCRtpMux ------------------------------
EXTENDS RtpMux, ModelDet
CONSTANTS Types, Hs
XOps(x) == {[ev |-> "register", typ |-> t, h |-> h] : t \in Types, h \in Hs}
           \cup {[ev |-> "default", h |-> h] : h \in Hs}
           \cup {[ev |-> "handle", typ |-> t, id |-> 1] : t \in Types}
XStarts == {MxInit(0)}
XView(x) == <<[t \in Types |-> IF t \in DOMAIN x.tab THEN x.tab[t] ELSE 0], x.def>>
XGood(x) == MxInvOne(x) /\ MxInvErr(x)
=============================================================================
