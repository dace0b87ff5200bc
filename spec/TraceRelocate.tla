--------------------------- MODULE TraceRelocate ---------------------------
(***************************************************************************)
(* What real installations made of files: for each of them its packaged    *)
(* form and what was found, and the calls the OS X tools received.         *)
(***************************************************************************)
EXTENDS Relocate, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Range(f) == {f[x] : x \in DOMAIN f}
If(cond, clause) == IF cond THEN {clause} ELSE {}

FileBad(e, f) ==
    IF f.there # f.kind THEN {"E08.kind"}
    ELSE If(f.kind = "l" /\ f.text # f.target, "E08.link")
         \cup If(f.kind = "f" /\ e.bp = e.ip /\ f.text # Packaged(f, e.bp),
                 "E08.same_prefix")
         \cup If(f.kind = "f" /\ e.bp # e.ip /\ Line(f) = 0 /\
                 f.text # Packaged(f, e.bp), "E08.elsewhere")
         \cup If(f.kind = "f" /\ Line(f) # 0 /\
                 f.text # Relocated(f, e.bp, e.ip), "E08.rewritten")
         \cup If(f.kind = "f" /\ f.gotmode # f.mode, "E08.mode")
Calls(e, f) == {t \in Range(e.tools) : t.file = f.path}
ToolBad(e, f) ==
    LET asked == UNION {Range(t.changes) : t \in Calls(e, f)} IN
    If(asked # Changes(f, e.bp, e.ip), "E08.libraries")
    \cup If(\E t \in Calls(e, f) : ~t.writable, "E08.writable")
Bad(e) ==
    IF e.ev \in {"hang", "died"} THEN {"hang"}
    ELSE IF e.st # "ok" THEN {"E08.failed"}
    ELSE UNION {FileBad(e, f) \cup ToolBad(e, f) : f \in Range(e.files)}
         \cup If(\E t \in Range(e.tools) :
                    \A f \in Range(e.files) : f.path # t.file, "E08.others")

VARIABLES l, bad
INSTANCE TraceLoop
=============================================================================
