----------------------------- MODULE TraceBuild -----------------------------
(***************************************************************************)
(* Real builds.  The state is the catalog, and the environment as it was   *)
(* last observed; without an environment a build starts from nothing.      *)
(***************************************************************************)
EXTENDS Build, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Nothing == [x \in {} |-> 0]
Start == [rec |-> Nothing, files |-> Nothing, cfg |-> Nothing]

PackageBad(f, b, e) ==
    IF ~e.made THEN {"B01.package"}
    ELSE If(e.pkg.files # b.added, "B01.files")
         \cup If(e.pkg.dup, "B01.twice")
         \cup If(Range(e.pkg.listed) # DOMAIN b.added \/
                 Len(e.pkg.listed) # Cardinality(DOMAIN b.added), "B01.listed")
         \cup If(e.pkg.meta # f.meta, "B01.metadata")
         \cup If(e.pkg.prefix # "@P", "B01.prefix")
         \cup If(e.pkg.name # f.file, "B01.name")
         \cup If(e.other.st # "ok", "B01.installed")
         \cup If(e.other.st = "ok" /\ e.other.files # b.added, "B01.recreated")

IndexBad(f, e) ==
    If(e.st = "ok" /\ Range(e.index) # Range(e.index0) \cup {f.file}, "B03.indexed")
    \cup If(e.st # "ok" /\ Range(e.index) # Range(e.index0), "B03.indexed")
    \cup If(Len(e.index) # Cardinality(Range(e.index)), "B03.indexed")

BuildBad(c, pre, e) ==
    LET f == e.f
        b == Built(c, f, e.repo, pre)
    IN
    (IF e.indexes THEN IndexBad(f, e) ELSE {})
    \cup (IF ~Clear(c, pre, f)
          THEN If(e.st # "ok" /\ e.made, "B03.package")
          ELSE OutcomeBad(b, e.st, e.log, e.made, Damaged(c, pre, f))
               \cup (IF e.st = "ok" /\ b.st = "ok"
                     THEN PackageBad(f, b, e)
                          \cup (IF e.env
                                THEN IF Replaces(c, pre, f) THEN {}
                                     ELSE EnvBad(c, f, pre, e.s)
                                ELSE {})
                          \cup If(~e.keep /\ e.left # 0, "B02.left")
                          \cup If(e.keep /\ e.left = 0, "B02.kept")
                     ELSE If(b.st = "ok", "B01.package")))

Bad(cur, e) ==
    CASE e.ev \in {"hang", "died"} -> {"hang"}
      [] e.ev = "build" -> BuildBad(cur.c, IF e.env THEN cur.s ELSE Start, e)
      [] OTHER -> {}
After(cur, e) ==
    CASE e.ev = "init" -> [c |-> e.cat, s |-> e.s]
      [] e.ev \in {"env", "build"} -> [cur EXCEPT !.s = e.s]
      [] OTHER -> cur
Initial == [c |-> Nothing, s |-> Start]

VARIABLES l, bad, cur
INSTANCE TraceState
=============================================================================
