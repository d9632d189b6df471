---------------------------- MODULE MCPortRange ----------------------------
(* The search itself, step by step, for every small range, every starting      *)
(* port and every assignment of answers to ports: it ends with an orderly,     *)
(* complete sequence of attempts, and finds a free port if there is one.       *)
EXTENDS PortRange
CONSTANTS Lo, Hi
Ports == Lo..Hi
VARIABLES truth, cur, tried, done
vars == <<truth, cur, tried, done>>
Init == /\ truth \in [Ports -> {"ok", "used", "denied"}]
        /\ cur \in Ports
        /\ tried = <<>>
        /\ done = FALSE
Try == /\ ~done
       /\ tried' = Append(tried, <<cur, truth[cur]>>)
       /\ cur' = IF cur + 1 > Hi THEN Lo ELSE cur + 1
       /\ done' = (truth[cur] # "used" \/ Len(tried') = Hi - Lo + 1)
       /\ UNCHANGED truth
Next == Try
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InvOrderly == Orderly(Lo, Hi, tried)
InvDone == done => /\ Complete(Lo, Hi, tried)
                   /\ (Outcome(Lo, Hi, tried) = "failed") <=> (\A p \in Ports : truth[p] = "used")
                   /\ (Outcome(Lo, Hi, tried) = "ok") => truth[tried[Len(tried)][1]] = "ok"
Ends == <>done
=============================================================================
