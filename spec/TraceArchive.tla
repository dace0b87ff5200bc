---------------------------- MODULE TraceArchive ----------------------------
(***************************************************************************)
(* Archives really unpacked: UnpackBad tells what they should have yielded *)
(***************************************************************************)
EXTENDS Archive, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Bad(e) == IF e.ev \in {"hang", "died"} THEN {"hang"}
          ELSE If(~WellFormed(e.a), "hang.archive") \cup UnpackBad(e)

VARIABLES l, bad
INSTANCE TraceLoop
=============================================================================
