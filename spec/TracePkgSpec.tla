---------------------------- MODULE TracePkgSpec ----------------------------
(***************************************************************************)
(* What the real code made of specifications and of packages.              *)
(***************************************************************************)
EXTENDS PkgSpec, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Bad(e) == CASE e.ev = "read" -> ReadBad(e.t, e.st, e.n, e.v, e.r)
            [] e.ev = "made" -> MadeBad(e.p, e.st, e.t)
                                \* a package meets the requirement it is
                                \* shown as
                                \cup If(e.meets # "true", "V03.requirement")
            [] OTHER -> {"hang"}
VARIABLES l, bad
INSTANCE TraceLoop
=============================================================================
