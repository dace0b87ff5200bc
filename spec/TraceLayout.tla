---------------------------- MODULE TraceLayout ----------------------------
(***************************************************************************)
(* Histories of the directories of real environments.  "point": what is    *)
(* left if the process dies; "done": what a tolerant creation made of it.  *)
(***************************************************************************)
EXTENDS Layout, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Range(f) == {f[x] : x \in DOMAIN f}
Bad(s, e) ==
    CASE e.ev \in {"hang", "died"} -> {"hang"}
      [] e.ev \in {"init", "user"} -> {}
      [] e.ev = "names" -> NamesBad(s, e.dirs)
      [] e.ev = "create" -> CreateBad(s, e.parent, e.tol, e.st, e.s)
      [] e.ev = "temp" -> TempBad(s, e.st, e.path, e.starts, e.below,
                                  e.private, e.s)
      [] e.ev = "clean" -> CleanBad(s, Range(e.inside), e.st, e.s)
      [] e.ev = "point" ->
            (IF e.op = "create" THEN CreateDies(s, e.s)
             ELSE CleanDies(s, Range(e.inside), e.s))
            \cup {"E12.again_" \o c : c \in
                    CreateBad(e.s, e.parent, TRUE, e.done, e.then)}
After(s, e) == IF e.ev \in {"hang", "died", "names", "point"} THEN s ELSE e.s
Initial == <<>>

VARIABLES l, bad, cur
INSTANCE TraceState
=============================================================================
