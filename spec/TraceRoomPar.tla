---------------------------- MODULE TraceRoomPar ----------------------------
(* A conference whose callers send, join and leave in goroutines of their own. *)
(* Callers 0 and 1 say one sound each, the others are silent, so that a unit   *)
(* (10 ms) that goes out tells whom it contains.                               *)
EXTENDS G711, TraceDet
PInit(e) == [n |-> 0, stopped |-> FALSE, left |-> {}, heard |-> <<0, 0>>, v |-> [i \in 1..2 |-> Tab("u")[e.says[i]]]]
\* the callers that a unit contains
Has(x, S) == (IF 0 \in S THEN x.v[1] ELSE 0) + (IF 1 \in S THEN x.v[2] ELSE 0)
Of(x, u) == {S \in SUBSET {0, 1} : Near("u", u, Has(x, S))}
Who(x, u) == IF Of(x, u) = {} THEN {} ELSE CHOOSE S \in Of(x, u) : TRUE
Count(x, us, i) == Len(SelectSeq(us, LAMBDA u : i \in Who(x, u)))
PStep(x, e) ==
    CASE e.ev = "frame" ->
           [st |-> [x EXCEPT !.n = @ + 1, !.heard = <<@[1] + Count(x, e.o.us, 0), @[2] + Count(x, e.o.us, 1)>>],
            obs |-> [none |-> 0],
            rel |-> [sound |-> /\ Len(e.o.us) = 2
                               /\ \A i \in 1..2 : Of(x, e.o.us[i]) # {} /\ Who(x, e.o.us[i]) \cap x.left = {},
                     number |-> e.o.at[1] = x.n % 65536 /\ e.o.at[2] = 160 * x.n,
                     after |-> ~x.stopped]]
      [] e.ev = "left" -> [st |-> [x EXCEPT !.left = @ \cup {e.i}], obs |-> [none |-> 0]]
      [] e.ev = "stopped" -> [st |-> [x EXCEPT !.stopped = TRUE], obs |-> [none |-> 0]]
      [] e.ev = "end" ->
           [st |-> x, obs |-> [none |-> 0],
            rel |-> [tracks |-> e.o.tracks = e.o.want,
                     pace |-> x.stopped \/ x.n = e.o.pace,
                     units |-> x.heard[1] <= e.o.units[1] /\ x.heard[2] <= e.o.units[2],
                     errs |-> e.o.errs = 0]]
=============================================================================
