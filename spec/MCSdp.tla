------------------------------- MODULE MCSdp -------------------------------
(* Every pair of codec sets and encryption policies of two sides, and every    *)
(* short list of what an offer can contain.                                   *)
EXTENDS Sdp, TLCExt, Json
CONSTANTS Pool, Lists
VARIABLES x
Policies == {"none", "allow", "require"}

Ends == [ipa |-> "10.0.0.1", porta |-> 4000, ipb |-> "10.0.0.2", portb |-> 5000]
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET v == CHOOSE v \in S : TRUE IN <<v>> \o SeqOf(S \ {v})

Negos == {[ev |-> "nego", ena |-> SeqOf(a), enb |-> SeqOf(b), enca |-> pa, encb |-> pb] @@ Ends
            : a \in SUBSET Pool, b \in SUBSET Pool, pa \in Policies, pb \in Policies}

\* lists: up to Lists lines (rtpmap or format), answered and applied by a side with all codecs or few
Line == {[m |-> [t |-> t, n |-> n]] : t \in {0, 96}, n \in {"pcmu/8000", "g722/8000", "telephone-event/8000", "foo/8000"}}
        \cup {[f |-> f] : f \in {0, 8, 96}}
RECURSIVE Some(_)
Some(k) == IF k = 0 THEN {<<>>} ELSE LET p == Some(k - 1) IN p \cup {Append(q, l) : q \in {r \in p : Len(r) = k - 1}, l \in Line}
Maps(q) == LET r == SelectSeq(q, LAMBDA l : "m" \in DOMAIN l) IN [i \in 1..Len(r) |-> r[i].m]
Fmts(q) == LET r == SelectSeq(q, LAMBDA l : "f" \in DOMAIN l) IN [i \in 1..Len(r) |-> r[i].f]
Base == [audio |-> TRUE, mconn |-> <<>>, sconn |-> <<"IN", "10.9.8.7">>, origin |-> <<"IN", "10.9.8.7">>, mport |-> 6000,
         crypto |-> <<>>, ip |-> "10.0.0.1", ip6 |-> FALSE, port |-> 4000, enc |-> "none", encoff |-> "none"]
Texts == {[ev |-> v, maps |-> Maps(q), fmts |-> Fmts(q), en |-> en] @@ Base
            : v \in {"answer", "apply"}, q \in Some(Lists),
              en \in {<<"PCMU/8000", "PCMA/8000", "G722/8000">>, <<"PCMA/8000">>}}

MCInit == x = [ev |-> "none"]
MCNext == x.ev = "none" /\ \/ x' \in Negos
                           \/ x' \in Texts
MCSpec == MCInit /\ [][MCNext]_x

AudioIn(S) == {n \in S : Row(n).audio}
Agree ==
    x.ev = "nego" =>
      LET a == SetOf(x.ena) b == SetOf(x.enb) r == Negotiate(a, b, x) IN
      /\ (r.err = "media") <=> (AudioIn(a \cap b) = {})
      /\ r.err = "" /\ r.erra = "" =>
           /\ r.audioa = r.audiob
           /\ r.audiob[2] \in AudioIn(a \cap b)
           /\ \A n \in AudioIn(a \cap b) : Row(n).prio <= Row(r.audiob[2]).prio
           /\ r.suitea = r.suiteb
           /\ (x.enca = "require" \/ x.encb = "require") => r.suitea # ""
           /\ (x.enca = "none" \/ x.encb = "none") => r.suitea = ""
           /\ (r.audiob[3] # 0) <=> (EventName \in a)
      /\ (x.enca # "none" /\ x.encb # "none" /\ r.err = "") => r.suiteb # "" /\ r.erra = ""
      /\ r.err = "crypto" => x.encb = "require" /\ x.enca = "none"
      /\ LET q == Offered(a) IN
         /\ \A i, j \in 1..Len(q) : q[i][1] = q[j][1] => i = j
         /\ Len(q) = Cardinality(a)
Mine ==
    x.ev = "answer" =>
      LET en == SetOf(x.en) r == AnswerTo(en, x) cs == Codecs(en, x.maps, x.fmts) IN
      /\ (r.err = "media") <=> (Usable(cs) = <<>>)
      /\ r.err = "" => /\ \E i \in 1..Len(cs) : cs[i] = <<r.audio[1], r.audio[2]>>
                       /\ r.audio[2] \in en
                       \* the offerer reads the answer the same way
                       /\ First(Codecs(en, AnswerMaps(<<r.audio[1], r.audio[2]>>, r.audio[3]),
                                       AnswerFmts(<<r.audio[1], r.audio[2]>>, r.audio[3]))) = <<r.audio[1], r.audio[2]>>

Node(v) == <<TLCFP(v), TLCFP(<<v>>)>>
Export == PrintT(ToJson([s |-> Node(x), o |-> x', d |-> Node(x')]))
=============================================================================
