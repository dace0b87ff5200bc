----------------------------- MODULE TraceStore -----------------------------
(***************************************************************************)
(* Histories of real file-backed dictionaries.  Each event carries the     *)
(* state observed after it.  "point": what is found if the process dies    *)
(* while an object is saved (or cleared: op), and what another process     *)
(* makes of it.  "fault": the saving has failed.                           *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
\* Emptying an object is like saving an empty one
Target(s, e) == IF e.op = "clear" THEN [s EXCEPT !.objs[e.o] = Nothing] ELSE s
Bad(s, e) ==
    CASE e.ev \in {"hang", "died"} -> {"hang"}
      [] e.ev \in {"init", "set"} -> {}
      [] e.ev \in {"new", "reload"} -> LoadBad(s, e.o, e.remote, e.st, e.s)
      [] e.ev = "save" -> SaveBad(s, e.o, e.fit, e.st, e.s)
      [] e.ev = "clear" -> ClearBad(s, e.o, e.st, e.s)
      [] e.ev = "point" ->
            PointBad(Target(s, e), e.o, e.f, FALSE, "")
            \cup If(Readable(e.f) /\ (e.opened # "ok" \/ e.got # Content(e.f)),
                    "D02.found")
            \cup If(Readable(e.f) /\ e.again # "ok", "D02.again")
      [] e.ev = "fault" -> PointBad(s, e.o, e.f, TRUE, e.st)
                           \cup If(e.s.objs[e.o] # s.objs[e.o], "D02.object")
After(s, e) == IF e.ev \in {"hang", "died", "point"} THEN s ELSE e.s
Initial == <<>>

VARIABLES l, bad, cur
INSTANCE TraceState
=============================================================================
