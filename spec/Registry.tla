------------------------------- MODULE Registry -------------------------------
(* The codec registry (codecs.go) and the lookups built on it (rtp, sdp).      *)
EXTENDS Integers, Sequences, FiniteSets

\* codecs: [name, low (lower case), one (only one "/" in it), typ (static payload type or -1)] in order of
\* registration; off: lower-case names that are disabled; cbs: what each callback has been given, in order
RInit(base, off, types) == [codecs |-> base, off |-> off, cbs |-> <<>>, types |-> types]
Ids(q) == [i \in 1..Len(q) |-> q[i].id]
Register(x, c, disabled) ==
    [x EXCEPT !.codecs = Append(@, c),
              !.off = IF disabled THEN @ \cup {c.low} ELSE @,
              !.cbs = [i \in 1..Len(@) |-> Append(@[i], c.id)],
              !.types = IF c.typ >= 0 THEN [@ EXCEPT ![c.typ + 1] = c.id] ELSE @]
Callback(x) == [x EXCEPT !.cbs = Append(@, Ids(x.codecs))]
SetEnabled(x, low, on) == [x EXCEPT !.off = IF on THEN @ \ {low} ELSE @ \cup {low}]
RApply(x, e) ==
    CASE e.ev = "register" -> Register(x, [id |-> e.id, low |-> e.low, one |-> e.one, typ |-> e.typ], e.dis)
      [] e.ev = "callback" -> Callback(x)
      [] e.ev = "enable"   -> SetEnabled(x, e.low, e.on)
      [] e.ev = "enablemany" -> [x EXCEPT !.off = (@ \ {e.lows[i] : i \in {k \in 1..Len(e.lows) : e.ons[k]}})
                                                  \cup {e.lows[i] : i \in {k \in 1..Len(e.lows) : ~e.ons[k]}}]
      [] OTHER -> x
Enabled(x) == Ids(SelectSeq(x.codecs, LAMBDA c : c.low \notin x.off))
\* the last one registered for a name; "" if there is none or it is disabled
Named(x, low) ==
    LET S == {i \in 1..Len(x.codecs) : LET c == x.codecs[i] IN c.low # "" /\ (c.low = low \/ (c.one /\ c.low \o "/1" = low))}
    IN  IF S = {} THEN "" ELSE LET c == x.codecs[CHOOSE i \in S : \A j \in S : j <= i] IN IF c.low \in x.off THEN "" ELSE c.id
=============================================================================
