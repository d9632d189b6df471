------------------------------ MODULE MCSwitch ------------------------------
EXTENDS Switch, ModelDet
CONSTANTS Third
RateArgs == {0, -1, 8000} \cup (IF Third THEN {16000} ELSE {})
Rates == IF Third THEN <<8000, 16000, 8000>> ELSE <<8000, 16000>>
MStarts == {SWInit(Rates)}
MOps(x) == IF x.rate = 0 THEN {[ev |-> "new", rate |-> r] : r \in RateArgs}
           ELSE {[ev |-> "setrate", rate |-> r] : r \in RateArgs}
                \cup {[ev |-> "swap", i |-> i] : i \in {None} \cup {j \in 0..(Len(Rates) - 1) : x.w[j + 1].closed = 0 /\ x.cur # j}}
                \cup {[ev |-> "rate"], [ev |-> "get"], [ev |-> "write", xs |-> <<>>], [ev |-> "close"]}
                \cup {[ev |-> "enable", b |-> b] : b \in BOOLEAN}
MApply(x, e) == SWApply(x, IF e.ev = "write" THEN [e EXCEPT !.xs = <<1, 1>>] ELSE e)
MView(x) == [x EXCEPT !.w = [i \in 1..Len(x.w) |-> [x.w[i] EXCEPT !.inn = @ > 0]]]
MGood(x) == SWInv(x)
=============================================================================
