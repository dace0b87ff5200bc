---------------------------- MODULE TraceBuilds ----------------------------
(* What the real code built, one problem a line. *)
EXTENDS Builds, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Bad(e) == IF e.ev # "builds" THEN {"hang"}
          ELSE BuildsBad(e.c, e.st, e.r, e.x, e.l, e.found)

VARIABLES l, bad
INSTANCE TraceLoop
=============================================================================
