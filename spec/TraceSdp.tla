------------------------------ MODULE TraceSdp ------------------------------
EXTENDS Sdp, TraceDet

PInit(e) == [en |-> {}]

PStep(x, e) ==
    LET en == IF "en" \in DOMAIN e THEN SetOf(e.en) ELSE x.en
        st == [en |-> en]
    IN
    CASE e.ev = "offer" ->
           LET q == SelectSeq(Offered(en), LAMBDA c : TRUE)
               ev == OfferedEvents(en)
               cr == e.enc # "none"
           IN [st |-> st,
               obs |-> [err |-> "", codecs |-> q, dtmf |-> ev, addr |-> <<e.ip, e.port>>, back |-> TRUE,
                        profiles |-> IF cr THEN Profiles ELSE <<>>,
                        text |-> [proto |-> Proto(IF cr THEN "s" ELSE ""), port |-> e.port, mode |-> Mode, formats |-> Types(q), maps |-> Strs(q),
                                  fmtp |-> Events4(ev), conns |-> Conns(<<e.ip, e.ip6>>), crypto |-> IF cr THEN Tags ELSE <<>>]]]
      [] e.ev = "parse" ->
           LET cs == Codecs(en, e.maps, e.fmts) IN
           IF ParseFails(e) THEN [st |-> st, obs |-> [err |-> TRUE, dest |-> Where(e)]]
           ELSE [st |-> st,
                 obs |-> [err |-> FALSE, dest |-> Where(e), dtmf |-> Events(e.maps), sel |-> With3(Best(cs), Events(e.maps)),
                          selans |-> With3(First(cs), Events(e.maps)), addr |-> <<Dest(e), e.mport>>,
                          crypto |-> LET q == Lines(e.crypto) IN
                                     [i \in 1..Len(q) |-> <<q[i].tag, q[i].suite, KeyOf(q[i]), SaltOf(q[i]), Mki(q[i].mki), Lifetime(q[i].life)>>]],
                 rel |-> [codecs |-> "codecs" \in DOMAIN e.o /\ SetOf(e.o.codecs) = SetOf(Usable(cs))]]
      [] e.ev = "fuzz" ->
           [st |-> st, obs |-> [z \in {} |-> 0],
            rel |-> [ok |-> e.o.ok => /\ e.o.port # 0 /\ e.o.valid
                                      /\ e.o.answer \in {"", "media"}
                                      /\ e.o.answer = "" => e.o.reparse]]
      [] e.ev = "answer" -> [st |-> st, obs |-> AnswerTo(en, e)]
      [] e.ev = "apply"  -> [st |-> st, obs |-> ApplyTo(en, e)]
      [] e.ev = "nego"   -> [st |-> [en |-> SetOf(e.ena)], obs |-> Negotiate(SetOf(e.ena), SetOf(e.enb), e)]
      [] e.ev = "select" -> LET r == Pick(e.off, e.ans, e.swap) IN
                            [st |-> st, obs |-> [err |-> "", quiet |-> TRUE, some |-> r # <<>>]
                                                @@ (IF r = <<>> THEN [err |-> ""] ELSE [picked |-> r[1], prof |-> r[2]])]
      [] e.ev = "lookup" -> [st |-> st, obs |-> [byname |-> ByName(en, e.low), bytype |-> ByType(e.t)]]
Inv == TRUE
=============================================================================
