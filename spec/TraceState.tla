----------------------------- MODULE TraceState -----------------------------
(***************************************************************************)
(* As TraceLoop, for logs whose events are judged in a state: After gives  *)
(* the state after an event.                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Log, Bad(_, _), After(_, _), Initial
VARIABLES l, bad, cur

Init == l = 1 /\ bad = <<>> /\ cur = Initial
Next ==
    \/ /\ l <= Len(Log)
       /\ LET b == Bad(cur, Log[l])
          IN  bad' = IF b = {} \/ Len(bad) > 100 THEN bad
                     ELSE Append(bad, [line |-> l, clauses |-> b])
       /\ cur' = After(cur, Log[l])
       /\ l' = l + 1
    \/ /\ l = Len(Log) + 1
       /\ JsonSerialize(IOEnv.OUT, bad)
       /\ l' = l + 1
       /\ UNCHANGED <<bad, cur>>
=============================================================================
