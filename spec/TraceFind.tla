----------------------------- MODULE TraceFind -----------------------------
(* Lookups in real repositories, one a line. *)
EXTENDS Repo, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
\* Contradicting requirements are refused (R01)
Bad(e) == CASE e.ev \in {"find", "first"} /\ Exclusive(e.req.s) -> {}
            [] e.ev = "find" -> FindBad(e.pk, e.req, e.st, e.r)
            [] e.ev = "first" -> FirstBad(e.pk, e.req, e.st, e.r)
            [] e.ev = "iter" -> IterBad(e.pk, e.st, e.r)
            [] OTHER -> {"hang"}

VARIABLES l, bad
INSTANCE TraceLoop
=============================================================================
