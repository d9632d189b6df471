------------------------------ MODULE TraceNon ------------------------------
(* Trace validation for concurrent calls: a recorded event is the beginning   *)
(* of a call, its return, or something seen outside; what happens inside in   *)
(* between is not recorded.  Accept(x, e) is the set of states in which the   *)
(* specification can be after the event e, Hidden(x) the set of those after   *)
(* one step that is not seen.                                                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Check, Accept(_, _), Hidden(_), InitOf(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l

Bad(e) == e.ev \in {"crash", "hang", "race"}

TraceInit == l = 1 /\ s = <<>> /\ TLCSet(1, 1)

See == /\ l <= Len(Trace)
       /\ l' = l + 1
       /\ LET e == Trace[l] IN
          /\ ~Bad(e)
          /\ IF e.ev = "reset" THEN s' = InitOf(e) ELSE s' \in Accept(s, e)
\* the next scenario begins in a state of its own
Inside == /\ l <= Len(Trace)
          /\ Trace[l].ev # "reset"
          /\ l' = l
          /\ s' \in Hidden(s)

TraceNext == See \/ Inside
TraceSpec == TraceInit /\ [][TraceNext]_<<s, l>>

Progress == TLCSet(1, IF l > TLCGet(1) THEN l ELSE TLCGet(1))
TraceAccepted == PrintT(<<"MAXL", TLCGet(1), Len(Trace)>>)
=============================================================================
