----------------------------- MODULE TraceLoop -----------------------------
(***************************************************************************)
(* The behaviour of a trace specification whose events are judged one by   *)
(* one: consume the log, collect the clauses each event breaks, and write  *)
(* them when the log ends.  Verdicts are total: an event which breaks a    *)
(* clause never prevents the following ones from being checked.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Log, Bad(_)
VARIABLES l, bad

Init == l = 1 /\ bad = <<>>
Next ==
    \/ /\ l <= Len(Log)
       /\ LET b == Bad(Log[l])
          IN  bad' = IF b = {} \/ Len(bad) > 100 THEN bad
                     ELSE Append(bad, [line |-> l, clauses |-> b])
       /\ l' = l + 1
    \/ /\ l = Len(Log) + 1
       /\ JsonSerialize(IOEnv.OUT, bad)
       /\ l' = l + 1
       /\ UNCHANGED bad
=============================================================================
