----------------------------- MODULE TraceVars -----------------------------
(***************************************************************************)
(* Real environment variables: those of environments entered with given    *)
(* inherited variables (enter), and list variables being edited (edit).    *)
(***************************************************************************)
EXTENDS Vars, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
If(cond, clause) == IF cond THEN {clause} ELSE {}

EnterBad(e) ==
    LET inh == e.inherited IN
    UNION {If(name \notin DOMAIN e.lists, "E10.missing")
           \cup (IF name \notin DOMAIN e.lists \/
                    ListRight(e.prefix, name, e.inlists, e.lists[name])
                 THEN {} ELSE {"E10." \o name}) : name \in Lists}
    \cup If(At(e.vars, "IPKG_ENVIRONMENT", "") # e.prefix \/
            At(e.vars, "TMPDIR", "") # e.prefix \o "/tmp" \/ ~e.named,
            "E10.environment")
    \cup If(At(e.vars, "HOME", "") # At(inh, "HOME", "/"), "E10.home")
    \cup If(\E x \in DOMAIN inh \ Special : At(e.vars, x, "\n") # inh[x],
            "E10.inherited")
    \cup If(DOMAIN e.vars \ (DOMAIN inh \cup Special) # {}, "E10.added")
    \cup If(e.ran # "ok" \/ e.seen # e.vars \/ e.seenlists # e.lists,
            "E10.command")
EditBad(cur, e) ==
    LET want == CASE e.op = "new" -> e.start
                  [] e.op = "insert" -> Insert(cur, e.x, e.i)
                  [] e.op = "append" -> Append1(cur, e.x)
                  [] e.op = "remove" -> Without(cur, e.x)
    IN  If(e.st # "ok", "E10.edit_failed") \cup If(e.got # want, "E10.edit")
Bad(cur, e) == CASE e.ev \in {"hang", "died"} -> {"hang"}
                 [] e.ev = "enter" ->
                       IF e.st # "ok" THEN {"E10.failed"} ELSE EnterBad(e)
                 [] e.ev = "edit" -> EditBad(cur, e)
After(cur, e) == IF e.ev = "edit" THEN e.got ELSE cur
Initial == <<>>

VARIABLES l, bad, cur
INSTANCE TraceState
=============================================================================
