----------------------------- MODULE TraceExec ------------------------------
(***************************************************************************)
(* Commands really run.                                                    *)
(*   c        the command                                                  *)
(*   st       "ok", "ipkg" (an ipkg error) or another outcome              *)
(*   named    the error names the command                                  *)
(*   ran      how many times the program ran                               *)
(*   args, cwd, env, input    how it was run                               *)
(*   want     the directory, variables, input and outputs there should be  *)
(*   out, err what was returned, and what the files given contain          *)
(***************************************************************************)
EXTENDS Exec, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
If(cond, clause) == IF cond THEN {clause} ELSE {}

RunBad(e) ==
    If(e.st = "ipkg" /\ Outcome(e.c) = "ok", "X01.false_error")
    \cup If(e.st # "ipkg" /\ Outcome(e.c) # "ok", "X01.unnoticed")
    \cup If(e.st \notin {"ok", "ipkg"}, "X01.other_error")
    \cup If(e.st = "ipkg" /\ ~e.named, "X01.unnamed")
    \cup If(e.ran # (IF Starts(e.c) THEN 1 ELSE 0), "X01.ran")
    \cup (IF e.ran # 1 \/ ~Starts(e.c) THEN {} ELSE
          If(e.args # Arguments(e.c), "X01.arguments")
          \cup If(e.cwd # e.want.cwd, "X01.directory")
          \cup If(e.env # e.want.env, "X01.variables")
          \cup If(e.input # e.want.input, "X01.input"))
    \cup (IF e.st # "ok" \/ Outcome(e.c) # "ok" THEN {} ELSE
          If(e.out # e.want.out, "X01.output")
          \cup If(e.err # e.want.err, "X01.errors"))
    \cup (IF ~Starts(e.c) THEN {} ELSE
          If(e.outfile # e.want.outfile, "X01.outfile")
          \cup If(e.errfile # e.want.errfile, "X01.errfile"))
Bad(e) == IF e.ev \in {"hang", "died"} THEN {"hang"} ELSE RunBad(e)

VARIABLES l, bad
INSTANCE TraceLoop
=============================================================================
