------------------------------ MODULE TraceDet ------------------------------
(* Trace validation for specifications whose transitions are functions of     *)
(* the state and the call: Step(s, e) is the record [st |-> next state,       *)
(* obs |-> what the specification says must be observed].  A recorded event   *)
(* carries the call (e.ev and arguments) and what the real code did (e.o).    *)
(* Check is the set of observations that decide the property being checked.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Check, Step(_, _), InitOf(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l
tvars == <<s, l>>

Bad(e) == e.ev \in {"crash", "hang", "race"}

\* the specification leaves open what it does not mention; a panic must always be expected
Fields(e, exp) == (DOMAIN exp \cap Check) \cup ({"panic"} \cap (DOMAIN e.o \cup DOMAIN exp))

FieldOK(e, exp, f) ==
    /\ f \in DOMAIN e.o
    /\ f \in DOMAIN exp
    /\ e.o[f] = exp[f]

Complain(what) == PrintT("MISMATCH " \o ToString(what)) /\ FALSE

Matches(e, exp) ==
    \A f \in Fields(e, exp) :
        IF FieldOK(e, exp, f) THEN TRUE
        ELSE Complain([line |-> l, ev |-> e.ev, field |-> f,
                       expected |-> IF f \in DOMAIN exp THEN exp[f] ELSE "nothing",
                       got |-> IF f \in DOMAIN e.o THEN e.o[f] ELSE "nothing"])

\* observations that are not determined: r.rel gives, for each of them, whether it is allowed
RelOK(e, r) ==
    IF "rel" \in DOMAIN r
    THEN \A f \in (DOMAIN r.rel) \cap Check :
            IF r.rel[f] THEN TRUE
            ELSE Complain([line |-> l, ev |-> e.ev, relation |-> f,
                           got |-> IF f \in DOMAIN e.o THEN e.o[f] ELSE "nothing"])
    ELSE TRUE

TraceInit == /\ l = 1
             /\ s = <<>>

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       /\ IF Bad(e) THEN Complain([line |-> l, ev |-> e.ev]) ELSE TRUE
       /\ IF e.ev = "reset" THEN s' = InitOf(e)
          ELSE LET r == Step(s, e) IN
               /\ Matches(e, r.obs)
               /\ RelOK(e, r)
               /\ s' = r.st

TraceSpec == TraceInit /\ [][TraceNext]_tvars

Progress == TLCSet(1, l)
TraceAccepted == PrintT(<<"MAXL", TLCGet(1), Len(Trace)>>)
=============================================================================
