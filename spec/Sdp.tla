-------------------------------- MODULE Sdp --------------------------------
(* SDP offer and answer (package sdp): which codec, payload types and keys two *)
(* sides of a call end up with, as functions of what each of them can do and   *)
(* of what is written in the descriptions they exchange.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------------------------ codecs
\* the codecs of the build: name, name in lower case, whether "/1" may follow it, priority,
\* fixed payload type (or -1), whether it is an audio codec
Cod(n, l, m, p, t, a) == [name |-> n, low |-> l, mono |-> m, prio |-> p, typ |-> t, audio |-> a]
Table == << Cod("G722/8000", "g722/8000", TRUE, -5, 9, TRUE),
            Cod("PCMU/8000", "pcmu/8000", TRUE, -10, 0, TRUE),
            Cod("PCMA/8000", "pcma/8000", TRUE, -20, 8, TRUE),
            Cod("telephone-event/8000", "telephone-event/8000", TRUE, -100, -1, FALSE),
            Cod("VFast/8000", "vfast/8000", TRUE, 5, -1, TRUE),
            Cod("VPair/16000/2", "vpair/16000/2", FALSE, -7, -1, TRUE),
            Cod("VStat/8000", "vstat/8000", TRUE, -15, 77, TRUE) >>
Names == {Table[i].name : i \in 1..Len(Table)}
Row(name) == Table[CHOOSE i \in 1..Len(Table) : Table[i].name = name]
EventName == "telephone-event/8000"
FirstDynamic == 101

SetOf(q) == {q[i] : i \in 1..Len(q)}
Static(r) == r.typ >= 0

\* lookups: "" if there is none
OneName(S) == IF S = {} THEN "" ELSE CHOOSE n \in S : TRUE
ByName(en, low) == OneName({n \in en : Row(n).low = low \/ (Row(n).mono /\ low = Row(n).low \o "/1")})
AudioByName(en, low) == LET n == ByName(en, low) IN IF n = "" \/ ~Row(n).audio THEN "" ELSE n
ByType(t) == OneName({n \in Names : Row(n).typ = t})
AudioByType(en, t) == IF t < 0 THEN "" ELSE OneName({n \in en : Row(n).typ = t /\ Row(n).audio})
IsEvents(low) == low = "telephone-event/8000" \/ low = "telephone-event/8000/1"

\* ------------------------------------------------------------ offers
Better(a, b) == LET x == Row(a) y == Row(b) IN
                IF Static(x) # Static(y) THEN Static(x) ELSE x.prio > y.prio
RECURSIVE Ordered(_)
Ordered(en) == IF en = {} THEN <<>>
               ELSE LET f == CHOOSE a \in en : \A b \in en \ {a} : Better(a, b)
                    IN <<f>> \o Ordered(en \ {f})
NDyn(q, i) == Cardinality({j \in 1..i : ~Static(Row(q[j]))})
\* the codecs offered: <<payload type, name>>
Offered(en) == LET q == Ordered(en) IN
               [i \in 1..Len(q) |-> <<IF Static(Row(q[i])) THEN Row(q[i]).typ ELSE FirstDynamic + NDyn(q, i) - 1, q[i]>>]
OfferedEvents(en) == LET q == Offered(en) S == {i \in 1..Len(q) : q[i][2] = EventName} IN
                     IF S = {} THEN 0 ELSE q[CHOOSE i \in S : TRUE][1]

\* ------------------------------------------------------------ reading a description
\* maps: sequence of [t, n] (rtpmap; t = -1: not a payload type, n in lower case); fmts: payload types of the m= line
Filter(q, T(_)) == SelectSeq(q, T)
Codecs(en, maps, fmts) ==
    LET ms == SelectSeq(maps, LAMBDA m : m.t >= 0 /\ m.t <= 255 /\ ~IsEvents(m.n))
        fs == SelectSeq(fmts, LAMBDA t : t >= 0 /\ t <= 255)
    IN  [i \in 1..Len(ms) |-> <<ms[i].t, AudioByName(en, ms[i].n)>>]
        \o [i \in 1..Len(fs) |-> <<fs[i], AudioByType(en, fs[i])>>]
Usable(cs) == SelectSeq(cs, LAMBDA c : c[2] # "")
Events(maps) == LET q == SelectSeq(maps, LAMBDA m : m.t >= 0 /\ m.t <= 255 /\ IsEvents(m.n))
                IN IF q = <<>> THEN 0 ELSE q[Len(q)].t

\* the best codec: highest priority, the first one of those; <<>> if there is none
Best(cs) == LET u == Usable(cs) IN
            IF u = <<>> THEN <<>>
            ELSE u[CHOOSE i \in 1..Len(u) : /\ \A j \in 1..Len(u) : Row(u[j][2]).prio <= Row(u[i][2]).prio
                                            /\ \A j \in 1..(i - 1) : Row(u[j][2]).prio < Row(u[i][2]).prio]
\* an answer names the codec in the first place
First(cs) == LET u == Usable(cs) IN IF u = <<>> THEN <<>> ELSE u[1]

Lower(n) == IF n = "" THEN "" ELSE Row(n).low

\* what an answer says: the chosen codec and the offered type for events
AnswerMaps(c, ev) == <<[t |-> c[1], n |-> Lower(c[2])]>> \o (IF ev = 0 THEN <<>> ELSE <<[t |-> ev, n |-> EventName]>>)
AnswerFmts(c, ev) == <<c[1]>> \o (IF ev = 0 THEN <<>> ELSE <<ev>>)

\* ------------------------------------------------------------ keys
Suites == <<"AES_CM_128_HMAC_SHA1_80", "AES_CM_128_HMAC_SHA1_32", "AES_256_CM_HMAC_SHA1_80", "AES_256_CM_HMAC_SHA1_32">>
Known(su) == \E i \in 1..4 : Suites[i] = su
KeyLen(su) == IF su \in {Suites[1], Suites[2]} THEN 16 ELSE 32
SaltLen == 14

\* the suite of `theirs' to use, an index into it, 0 if there is none:
\* in the answerer's order of preference, the first line offered for it
RECURSIVE Common(_, _)
Common(offered, answered) ==
    IF answered = <<>> THEN 0
    ELSE LET su == answered[1]
             S == {i \in 1..Len(offered) : offered[i] = su /\ Known(su)}
         IN  IF S = {} THEN Common(offered, Tail(answered))
             ELSE CHOOSE i \in S : \A j \in S : i <= j
\* what encryption a side gets: "" plain, a suite, or "crypto" for the failure to agree
Policy(su, enc, present) ==
    LET got == IF present /\ enc # "none" THEN su ELSE "" IN
    IF got = "" /\ enc = "require" THEN "crypto" ELSE got

\* ------------------------------------------------------------ numbers of any size, as big-endian bytes
\* digits: decimal digits, most significant first; 9 bytes, the first one not zero means too large
RECURSIVE MulAdd(_, _, _, _)
MulAdd(b, m, c, i) == IF i = 0 THEN b
                      ELSE LET x == b[i] * m + c
                           IN MulAdd([b EXCEPT ![i] = x % 256], m, x \div 256, i - 1)
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE FromDigits(_, _)
FromDigits(b, ds) == IF ds = <<>> THEN b ELSE FromDigits(MulAdd(b, 10, ds[1], Len(b)), Tail(ds))
BigOf(ds) == FromDigits(Zeros(12), ds)
Fits64(b) == \A i \in 1..4 : b[i] = 0
Low8(b) == SubSeq(b, 5, 12)
RECURSIVE TwoTo(_)
TwoTo(n) == IF n = 0 THEN 1 ELSE 2 * TwoTo(n - 1)
PowBytes(n) == [i \in 1..8 |-> IF i = 8 - n \div 8 THEN TwoTo(n % 8) ELSE 0]
IsZero(b) == \A i \in 1..Len(b) : b[i] = 0
RECURSIVE SmallOf(_)
SmallOf(ds) == IF ds = <<>> THEN 0 ELSE SmallOf(SubSeq(ds, 1, Len(ds) - 1)) * 10 + ds[Len(ds)]

\* lifetime: [k |-> "none" / "pow" / "dec" / "bad", d |-> digits]; <<>> if it is malformed
Lifetime(x) ==
    CASE x.k = "none" -> Zeros(8)
      [] x.k = "pow"  -> IF Len(x.d) > 3 \/ SmallOf(x.d) > 63 THEN <<>> ELSE PowBytes(SmallOf(x.d))
      [] x.k = "dec"  -> IF ~Fits64(BigOf(x.d)) \/ IsZero(BigOf(x.d)) THEN <<>> ELSE Low8(BigOf(x.d))
      [] OTHER -> <<>>
\* key identifier: [k |-> "none" / "ok" / "bad", v |-> digits, l |-> digits]
MkiOK(x) == \/ x.k = "none"
            \/ /\ x.k = "ok"
               /\ Len(x.l) <= 3 /\ SmallOf(x.l) \in 1..8
               /\ Fits64(BigOf(x.v))
               /\ \A i \in 1..(8 - SmallOf(x.l)) : Low8(BigOf(x.v))[i] = 0
Mki(x) == IF x.k = "none" THEN <<>> ELSE SubSeq(Low8(BigOf(x.v)), 9 - SmallOf(x.l), 8)

\* one crypto attribute: "skip" (not for us), "bad", or "ok"
KeyVerdict(x) ==
    IF x.form # "ok" THEN x.form
    ELSE IF ~x.b64 \/ Lifetime(x.life) = <<>> \/ ~MkiOK(x.mki) THEN "bad"
    ELSE IF Known(x.suite) /\ Len(x.key) < KeyLen(x.suite) THEN "bad"
    ELSE "ok"
KeyOf(x) == IF Known(x.suite) THEN SubSeq(x.key, 1, KeyLen(x.suite)) ELSE x.key
SaltOf(x) == IF Known(x.suite) THEN SubSeq(x.key, KeyLen(x.suite) + 1, Len(x.key)) ELSE <<>>
Lines(cr) == SelectSeq(cr, LAMBDA x : KeyVerdict(x) = "ok")
LineSuites(cr) == LET q == Lines(cr) IN [i \in 1..Len(q) |-> q[i].suite]

\* ------------------------------------------------------------ where to send
\* conns: connection lines <<net, ip>> (ip = "" if it is no IP address); media level first, then session level
Dest(e) == LET c == IF e.mconn # <<>> THEN e.mconn ELSE e.sconn IN
           IF c # <<>> /\ c[1] = "IN" THEN c[2]
           ELSE IF e.origin[1] = "IN" THEN e.origin[2] ELSE ""

\* the same, asked of the text directly, before anything else of it is judged
Where(e) == IF ~e.audio \/ Dest(e) = "" THEN "none" ELSE Dest(e)

ParseFails(e) ==
    \/ ~e.audio
    \/ Dest(e) = ""
    \/ e.mport <= 0 \/ e.mport > 65535
    \/ \E i \in 1..Len(e.crypto) : KeyVerdict(e.crypto[i]) = "bad"

\* ------------------------------------------------------------ calls

Strs(cs) == [i \in 1..Len(cs) |-> <<ToString(cs[i][1]), cs[i][2]>>]
Types(cs) == [i \in 1..Len(cs) |-> ToString(cs[i][1])]
Events4(ev) == IF ev = 0 THEN <<>> ELSE <<<<ToString(ev), "0-16">>>>
Conns(ip) == LET k == (IF ip[2] THEN "IN IP6 " ELSE "IN IP4 ") \o ip[1] IN <<k, k>>
Proto(su) == IF su = "" THEN "RTP/AVP" ELSE "RTP/SAVP"
\* packets of 20 ms, both ways
Mode == <<"ptime 20", "sendrecv">>
Profiles == [i \in 1..4 |-> <<i, Suites[i], KeyLen(Suites[i]), SaltLen>>]
Tags == [i \in 1..4 |-> <<ToString(i), Suites[i]>>]

With3(c, ev) == IF c = <<>> THEN <<>> ELSE <<c[1], c[2], ev>>

\* the answer of a side with codecs en and policy enc to what is written in e
AnswerTo(en, e) ==
    LET c   == Best(Codecs(en, e.maps, e.fmts))
        ev  == Events(e.maps)
        ls  == Lines(e.crypto)
        k   == Common(LineSuites(e.crypto), Suites)
        pol == Policy(IF k = 0 THEN "" ELSE ls[k].suite, e.enc, ls # <<>>)
    IN  IF c = <<>> THEN [err |-> "media"]
        ELSE IF pol = "crypto" THEN [err |-> "crypto"]
        ELSE [err |-> "",
              audio |-> <<c[1], c[2], ev>>,
              local |-> <<e.ip, e.port>>, remote |-> <<Dest(e), e.mport>>,
              suite |-> pol, lkey |-> TRUE, works |-> TRUE,
              rkey |-> IF pol = "" THEN <<>> ELSE KeyOf(ls[k]),
              rsalt |-> IF pol = "" THEN <<>> ELSE SaltOf(ls[k]),
              desc |-> <<<<<<c[1], c[2]>>>>, ev, <<e.ip, e.port>>>>,
              line |-> IF pol = "" THEN <<>> ELSE <<<<ToString(ls[k].tag), pol>>>>,
              text |-> [proto |-> Proto(pol), port |-> e.port, mode |-> Mode, formats |-> Types(<<c>> \o (IF ev = 0 THEN <<>> ELSE <<<<ev>>>>)),
                        maps |-> Strs(<<c>> \o (IF ev = 0 THEN <<>> ELSE <<<<ev, EventName>>>>)),
                        fmtp |-> Events4(ev), conns |-> Conns(<<e.ip, e.ip6>>),
                        crypto |-> IF pol = "" THEN <<>> ELSE <<<<ToString(ls[k].tag), pol>>>>]]

\* applying the answer written in e to an offer of ours
ApplyTo(en, e) ==
    LET c   == First(Codecs(en, e.maps, e.fmts))
        ls  == Lines(e.crypto)
        off == IF e.encoff = "none" THEN <<>> ELSE Suites
        \* their line for a suite we offered
        S   == {i \in 1..Len(ls) : Known(ls[i].suite) /\ off # <<>>}
        k   == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
        pol == Policy(IF k = 0 THEN "" ELSE ls[k].suite, e.enc, ls # <<>>)
    IN  IF c = <<>> THEN [err |-> "media"]
        ELSE IF pol = "crypto" THEN [err |-> "crypto"]
        ELSE [err |-> "", audio |-> <<c[1], c[2], Events(e.maps)>>,
              local |-> <<e.ip, e.port>>, remote |-> <<Dest(e), e.mport>>,
              suite |-> pol, lkey |-> TRUE, works |-> TRUE,
              rkey |-> IF pol = "" THEN <<>> ELSE KeyOf(ls[k]),
              rsalt |-> IF pol = "" THEN <<>> ELSE SaltOf(ls[k])]

OfferMaps(en) == LET q == Offered(en) IN [i \in 1..Len(q) |-> [t |-> q[i][1], n |-> Lower(q[i][2])]]
OfferFmts(en) == LET q == Offered(en) IN [i \in 1..Len(q) |-> q[i][1]]

\* both sides are ours
Negotiate(ea, eb, e) ==
    LET c  == Best(Codecs(eb, OfferMaps(ea), OfferFmts(ea)))
        ev == Events(OfferMaps(ea))
        pb == Policy(Suites[1], e.encb, e.enca # "none")
        ca == First(Codecs(ea, AnswerMaps(c, ev), AnswerFmts(c, ev)))
        pa == Policy(pb, e.enca, pb # "")
        b  == [err |-> "", back |-> TRUE, audiob |-> <<c[1], c[2], ev>>, localb |-> <<e.ipb, e.portb>>,
               remoteb |-> <<e.ipa, e.porta>>, suiteb |-> pb]
    IN  IF c = <<>> THEN [err |-> "media"]
        ELSE IF pb = "crypto" THEN [err |-> "crypto"]
        ELSE IF pa = "crypto" THEN b @@ [erra |-> "crypto"]
        ELSE b @@ [erra |-> "", audioa |-> <<ca[1], ca[2], ev>>, locala |-> <<e.ipa, e.porta>>, remotea |-> <<e.ipb, e.portb>>,
                   suitea |-> pa, works |-> TRUE]

\* The choice among profiles <<suite, tag, key, identifier>>: the first one of the answer that can be used and was
\* offered, with the first such offer. mine: which of the two is this side's own.
Pick(off, ans, swap) ==
    LET fit == {i \in 1..Len(ans) : ans[i][1] \in SetOf(Suites) /\ \E k \in 1..Len(off) : off[k][1] = ans[i][1]} IN
    IF fit = {} THEN <<>>
    ELSE LET i == CHOOSE i \in fit : \A k \in fit : i <= k
             ks == {k \in 1..Len(off) : off[k][1] = ans[i][1]}
             k == CHOOSE k \in ks : \A m \in ks : k <= m
             mine == IF swap THEN ans[i] ELSE off[k]
             other == IF swap THEN off[k] ELSE ans[i]
         IN <<<<ans[i][1], mine[3], other[3], mine[4], other[4]>>,
              <<ans[i][1], off[k][2], mine[3], mine[4]>>>>
=============================================================================
