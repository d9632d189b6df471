------------------------------- MODULE RtpMux -------------------------------
(* The RTP handler mux: payload type -> handler, with a default.  Handlers are *)
(* numbers; 0 is "none".  A handler may fail; the error goes to the caller.    *)
EXTENDS Integers, Sequences, FiniteSets

MxInit(def) == [tab |-> [t \in {} |-> 0], def |-> def, hits |-> <<>>, err |-> 0]

MxLookup(s, typ) == IF typ \in DOMAIN s.tab /\ s.tab[typ] # 0 THEN s.tab[typ] ELSE s.def

MxClear(s) == [s EXCEPT !.hits = <<>>, !.err = 0]
MxRegister(s, typ, h) ==
    [MxClear(s) EXCEPT !.tab = [t \in (DOMAIN s.tab \cup {typ}) |-> IF t = typ THEN h ELSE s.tab[t]]]
MxDefault(s, h) == [MxClear(s) EXCEPT !.def = h]
\* handlers with an odd number fail with their number as error
MxHandle(s, typ, id) ==
    LET h == MxLookup(s, typ)
    IN  IF h = 0 THEN MxClear(s)
        ELSE [MxClear(s) EXCEPT !.hits = <<<<h, typ, id>>>>, !.err = IF h % 2 = 1 THEN h ELSE 0]

MxApply(s, e) ==
    CASE e.ev = "register" -> MxRegister(s, e.typ, e.h)
      [] e.ev = "default"  -> MxDefault(s, e.h)
      [] e.ev = "handle"   -> MxHandle(s, e.typ, e.id)
      [] e.ev = "nilmux"   -> MxClear(s)
      [] e.ev = "string"   -> MxClear(s)
\* what a description says of it: each type with a handler, and the default (-1)
MxDesc(s) == {<<t, s.tab[t]>> : t \in {t \in DOMAIN s.tab : s.tab[t] # 0}} \cup (IF s.def = 0 THEN {} ELSE {<<-1, s.def>>})

MxInvOne(s) == Len(s.hits) <= 1
MxInvErr(s) == s.err # 0 => s.hits # <<>> /\ s.hits[1][1] = s.err
=============================================================================
