---------------------------- MODULE TraceSolver ----------------------------
(***************************************************************************)
(* Answers of the real solver, one problem a line.                         *)
(***************************************************************************)
EXTENDS Solver, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Bad(e) == IF e.ev # "solve" THEN {"hang"}
          ELSE IF e.st = "ok" /\ \E i \in Range(e.r) : i = 0 THEN {"S01.unknown"}
          ELSE SolveBad(e.c, e.hide, e.st, e.loop, e.r)

VARIABLES l, bad
INSTANCE TraceLoop
=============================================================================
