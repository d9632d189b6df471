--------------------------- MODULE TraceSwitchMany ---------------------------
(* Many exchanges at the same time.  Swap and Close are steps (Switch.tla), so *)
(* each writer that was put in comes back once, is closed once, or is still    *)
(* there; SetSampleRate is a step, so one call of many sets the rate.          *)
EXTENDS Integers, Sequences, FiniteSets, TraceDet
MInit(e) == [none |-> 0]
MStep(x, e) ==
    CASE e.ev = "many" -> [st |-> x, obs |-> [none |-> 0],
                           rel |-> [ids |-> Len(e.o.ids) = e.n /\ {e.o.ids[i] : i \in DOMAIN e.o.ids} = 0..(e.n - 1)]]
      [] e.ev = "rates" -> [st |-> x, obs |-> [none |-> 0],
                            rel |-> [won |-> Len(e.o.won) = e.n /\ \A i \in 1..e.n : e.o.won[i] = <<e.o.final[i]>>]]
=============================================================================
