----------------------------- MODULE TraceLoad -----------------------------
(* Formula files really loaded, and the classes used, one step a line. *)
EXTENDS Load, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Bad(e) == CASE e.ev = "load" -> LoadBad(e.f, e.st, e.id)
                                \cup AttrBad(e.f, e.st, e.attrs)
            [] e.ev = "new" -> NewBad(e.f, e.st)
            [] e.ev = "use" -> UseBad(e.f, e.st, e.id, e.tag)
            [] e.ev = "repo" -> RepoBad(e.fs, e.st, e.ids)
            [] OTHER -> {"hang"}

VARIABLES l, bad
INSTANCE TraceLoop
=============================================================================
