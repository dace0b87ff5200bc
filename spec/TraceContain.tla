---------------------------- MODULE TraceContain ----------------------------
(***************************************************************************)
(* What real installations, removals and unpackings did to the files       *)
(* outside of the directory they were given.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Bad(e) ==
    IF e.ev \in {"hang", "died"} THEN {"hang"}
    ELSE IF e.before # e.after THEN {"E09." \o e.ev} ELSE {}

VARIABLES l, bad
INSTANCE TraceLoop
=============================================================================
