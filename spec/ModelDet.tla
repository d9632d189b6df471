------------------------------ MODULE ModelDet ------------------------------
(* Exhaustive exploration of a specification given as functions: every call   *)
(* in Ops(s) is applied in every reachable state, up to Depth calls.          *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json

CONSTANTS Ops(_), Apply(_, _), Starts, Depth, View(_), Good(_)

VARIABLES s, op
mvars == <<s, op>>

ModelInit == s \in Starts /\ op = [ev |-> "init"]
ModelNext == \E o \in Ops(s) : op' = o /\ s' = Apply(s, o)
ModelSpec == ModelInit /\ [][ModelNext]_mvars

Bound == TLCGet("level") <= Depth
ModelView == View(s)
ModelInv == Good(s)

Node(v) == <<TLCFP(v), TLCFP(<<v>>)>>
\* used as ACTION_CONSTRAINT: prints every transition for the replay on the real code
Export == PrintT(ToJson([s |-> Node(View(s)), o |-> op', d |-> Node(View(s'))]))
=============================================================================
