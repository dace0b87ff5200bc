------------------------------ MODULE TraceEnv ------------------------------
(***************************************************************************)
(* Histories of real environments.  The state of the trace is the catalog  *)
(* and the last observed state of the environment; each event carries the  *)
(* state observed after it:                                                *)
(*   s     what the live object records, and the files                     *)
(*   s2    the same, of the environment opened again                       *)
(*   m, m2 digests of all the metadata, live and opened again              *)
(*   live, again   package variables, live and opened again                *)
(***************************************************************************)
EXTENDS Env, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

\* The package an installation is about: 0 if there is none
Target(c, e) == IF e.how = "text"
                THEN IF e.repo /\ Candidates(c, e.req) # {}
                     THEN Newest(c, e.req) ELSE 0
                ELSE e.i

OpBad(c, pre, e) ==
    CASE e.ev = "init" -> {}
      [] e.ev = "install" ->
            LET i == Target(c, e) IN
            IF i = 0 THEN NotFoundBad(pre, e.st, e.s)
            ELSE InstallBad(c, pre, i, e.repo, e.st, e.s)
                 \cup (IF e.st = "ok" /\ P(c, i).ok
                       THEN AvailableBad(c, pre, i, e.s, e.live) ELSE {})
      [] e.ev = "uninstall" -> UninstallBad(c, pre, e.n, e.st, e.s)
      [] e.ev = "config" ->
            If(e.st # "ok" \/ e.s.cfg # (e.k :> e.v) @@ pre.cfg, "E05.config")
            \cup If(e.s.rec # pre.rec \/ e.s.files # pre.files, "E05.changed")
      [] e.ev = "reopen" -> If(e.st # "ok" \/ ~Unchanged(pre, e.s), "E05.reopened")
      [] e.ev = "user" -> If(pre.rec # e.s.rec, "E05.changed")
AlwaysBad(c, e) ==
    If(e.dup, "E04.two")
    \cup (IF ~e.opened THEN {"E05.reopen", "E07.unusable"}
          ELSE If(e.s2 # e.s \/ e.m2 # e.m, "E05.reopen")
               \cup ReopenedVarsBad(c, e.s, e.again))

\* What dying leaves, and the operation done again there: the operation of the last event, with the state before it
CrashBad(cur, e) ==
    LET c == cur.c
        o == cur.op
        i == IF o.ev = "install" THEN Target(c, o) ELSE 0
        may == IF i = 0 THEN {} ELSE Needed(c, cur.pre, i, o.repo)
    IN
    IF o.ev = "install" /\ i = 0 THEN If(~e.opened, "E06.opened")
    ELSE IF ~e.opened THEN {"E06.opened"}
    ELSE IF ~Consistent(c, may) THEN {}
    ELSE IF e.ev = "point" THEN PointBad(c, cur.pre, cur.s, may, e.s)
    ELSE IF o.st = "ok" THEN RedoneBad(c, cur.pre, cur.s, e.s) ELSE {}

Bad(cur, e) ==
    IF e.ev \in {"hang", "died"} THEN {"hang"}
    ELSE IF e.ev \in {"point", "again"} THEN CrashBad(cur, e)
    ELSE OpBad(IF e.ev = "init" THEN e.cat ELSE cur.c, cur.s, e)
         \cup AlwaysBad(IF e.ev = "init" THEN e.cat ELSE cur.c, e)
After(cur, e) ==
    IF e.ev \in {"hang", "died", "point", "again"} THEN cur
    ELSE [c |-> IF e.ev = "init" THEN e.cat ELSE cur.c, s |-> e.s,
          pre |-> cur.s, op |-> e]
Initial == [c |-> <<>>, s |-> <<>>, pre |-> <<>>, op |-> <<>>]

VARIABLES l, bad, cur
INSTANCE TraceState
=============================================================================
