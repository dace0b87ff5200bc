------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Commands really run.  The state is the catalog and the world as it was  *)
(* last observed.                                                          *)
(***************************************************************************)
EXTENDS Cli, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

\* Sets come as sequences
World(w) == [w EXCEPT !.repo = [files |-> Range(w.repo.files),
                                index |-> Range(w.repo.index)],
                      !.out = Range(w.out)]
Bad(cur, e) ==
    CASE e.ev \in {"hang", "died"} -> {"hang"}
      [] e.ev = "cli" ->
            CliBad(cur.c, cur.w, e.o, [e EXCEPT !.w = World(e.w)])
            \cup If(Len(e.w.repo.index) # Cardinality(Range(e.w.repo.index)),
                    "X02.index")
      [] OTHER -> {}
After(cur, e) ==
    CASE e.ev = "init" -> [c |-> e.cat, w |-> World(e.w)]
      [] e.ev \in {"user", "cli"} -> [cur EXCEPT !.w = World(e.w)]
      [] OTHER -> cur
Initial == [c |-> <<>>, w |-> <<>>]

VARIABLES l, bad, cur
INSTANCE TraceState
=============================================================================
