----------------------------- MODULE MCRegistry -----------------------------
EXTENDS Registry, ModelDet
CONSTANTS MaxCodecs, MaxCallbacks
Names == {[low |-> "a", one |-> FALSE], [low |-> "b/8", one |-> TRUE], [low |-> "b/8/1", one |-> FALSE]}
MStarts == {RInit(<<>>, {}, <<"", "">>)}
MOps(x) == (IF Len(x.codecs) < MaxCodecs
            THEN {[ev |-> "register", id |-> ToString(Len(x.codecs)), low |-> n.low, one |-> n.one, typ |-> t, dis |-> d] : n \in Names, t \in {-1, 0}, d \in BOOLEAN}
            ELSE {})
           \cup (IF Len(x.cbs) < MaxCallbacks THEN {[ev |-> "callback"]} ELSE {})
           \cup {[ev |-> "enable", low |-> n.low, on |-> b] : n \in Names, b \in BOOLEAN}
MApply(x, e) == RApply(x, e)
MView(x) == x
MGood(x) == /\ \A i \in 1..Len(x.cbs) : x.cbs[i] = Ids(x.codecs)
            /\ \A n \in Names : Named(x, n.low) # "" => \E i \in 1..Len(Enabled(x)) : Enabled(x)[i] = Named(x, n.low)
            \* an enabled codec is found, unless a later one has (or stands for) its name
            /\ \A i \in 1..Len(x.codecs) :
                 LET c == x.codecs[i]
                     later == \E j \in (i + 1)..Len(x.codecs) : x.codecs[j].low = c.low \/ (x.codecs[j].one /\ x.codecs[j].low \o "/1" = c.low)
                 IN  (c.low \notin x.off /\ ~later) => Named(x, c.low) = c.id
            /\ Len(Enabled(x)) <= Len(x.codecs)
=============================================================================
