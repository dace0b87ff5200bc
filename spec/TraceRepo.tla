----------------------------- MODULE TraceRepo -----------------------------
(***************************************************************************)
(* Histories of real repositories.  Each event carries the state observed  *)
(* after it: disk, live and stored (of the repository opened again).       *)
(* "point" events: a copy of the repository as found if the process dies   *)
(* during the next operation; "again": the index rebuilt in such a copy.   *)
(***************************************************************************)
EXTENDS Repo, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Grown(c, e) == IF e.new # <<>> THEN c \o e.new ELSE c

Judge(c, s, e) ==
    CASE e.ev = "init" -> If(~e.opened, "P02.open")
      [] e.ev = "files" -> {}
      [] e.ev = "point" -> PointBad(c, s, e.op, e.i, e.opened, e.stored)
      [] e.ev = "again" ->
            IF \A f \in DOMAIN e.disk : e.disk[f] # 0 /\ c[e.disk[f]].ok
            THEN If(e.st # "ok" \/ ~Lists(c, e.stored, Good(c, e.disk)),
                    "P04.again")
            ELSE {}
      [] e.ev = "update" -> UpdateBad(c, s, e.st, e.s)
      [] e.ev = "add" -> AddBad(c, s, e.i, e.st, e.s)
      [] e.ev = "refuse" -> RefuseBad(s, e.st, e.s)
      [] e.ev = "save" -> SaveBad(s, e.st, e.s)
      [] e.ev = "build" -> BuildBad(c, s, e.fails, e.i, e.st, e.s)
      [] e.ev = "reopen" -> ReopenBad(s, e.st, e.s)
      [] e.ev = "found" -> FoundBad(c, s, e.found)
                           \cup If(Range(e.found) # Range(e.installed),
                                   "P02.installed")
Bad(cur, e) ==
    IF e.ev \in {"hang", "died"} THEN {"hang"}
    ELSE LET c == IF e.ev = "init" THEN e.c ELSE Grown(cur.c, e)
         IN  Judge(c, cur.s, e)
             \cup If(e.ev \notin {"point", "again"} /\ ~e.opened, "P02.open")
After(cur, e) ==
    IF e.ev \in {"hang", "died", "point", "again", "found"} THEN
        IF e.ev \in {"point", "again"} THEN [cur EXCEPT !.c = Grown(cur.c, e)]
        ELSE cur
    ELSE [c |-> IF e.ev = "init" THEN e.c ELSE Grown(cur.c, e), s |-> e.s]
Initial == [c |-> <<>>, s |-> <<>>]

VARIABLES l, bad, cur
INSTANCE TraceState
=============================================================================
