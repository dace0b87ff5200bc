------------------------------ MODULE MC_Build ------------------------------
(***************************************************************************)
(* Every history of builds, installations and removals over small problems *)
(* (a catalog, and formulas), the builds step by step: a package is made   *)
(* when all steps succeeded only, with exactly what the steps added, and   *)
(* the environment is afterwards as it was.                                *)
(***************************************************************************)
EXTENDS Build, Json, IOUtils

CONSTANT Emit
Problems == ndJsonDeserialize(IOEnv.PROBLEMS)

VARIABLES k, s,    \* the problem, the environment
          b, job,  \* the build under way: <<formula, repository?, pre>>
          made,    \* the packages made
          last
vars == <<k, s, b, job, made, last>>
View == <<k, s, b, job, made>>
C == Problems[k]
Fs == Problems[k].formulas
Empty == [x \in {} |-> 0]
Idle == [ph |-> "idle"]
None == [j |-> 0, repo |-> FALSE, pre |-> <<>>]

Init == /\ k \in 1..Len(Problems)
        /\ s = [rec |-> Empty, files |-> Empty, cfg |-> Empty]
        /\ b = Idle /\ job = None /\ made = {}
        /\ last = [op |-> "init"]

Install(i) == LET r == DoInstall(C, s, i, TRUE, {}) IN
              /\ b = Idle /\ r.st = "ok" /\ s' = r.s
              /\ last' = [op |-> "install", i |-> i]
              /\ UNCHANGED <<b, job, made>>
Uninstall(n) == /\ b = Idle /\ n \in DOMAIN s.rec /\ s' = DoUninstall(C, s, n)
                /\ last' = [op |-> "uninstall", n |-> n]
                /\ UNCHANGED <<b, job, made>>
Start(j, repo) == /\ b = Idle /\ b' = Begin(s)
                  /\ job' = [j |-> j, repo |-> repo, pre |-> s]
                  /\ last' = [op |-> "build", j |-> j, repo |-> repo]
                  /\ UNCHANGED <<s, made>>
Go == /\ b # Idle /\ b.ph # "over"
      /\ b' = BuildStep(C, Fs[job.j], job.repo, job.pre, b)
      /\ s' = b'.s
      /\ made' = IF b'.ph = "clean" /\ b.ph = "pack" THEN {b'.added} ELSE made
      /\ last' = [op |-> "step"]
      /\ UNCHANGED job
\* nothing but the environment matters to what comes next
End == /\ b # Idle /\ b.ph = "over" /\ b' = Idle /\ job' = None /\ made' = {}
       /\ last' = [op |-> "end"] /\ UNCHANGED s
Next == /\ UNCHANGED k
        /\ \/ \E i \in 1..Len(C.pkgs) : Install(i)
           \/ \E n \in {C.pkgs[i].n : i \in 1..Len(C.pkgs)} : Uninstall(n)
           \/ \E j \in 1..Len(Fs), repo \in BOOLEAN : Start(j, repo)
           \/ Go \/ End

Over == b # Idle /\ b.ph = "over"
F == Fs[job.j]
\* B01: the package has exactly what was not there before
Package == Over /\ b.st = "ok" =>
    /\ made = {b.added}
    /\ \A x \in DOMAIN b.added : x \in Touched(F) /\ File(job.pre, x) = "none"
    /\ \A x \in Touched(F) : File(b.s, x) = "none" \/ x \in b.base
\* B02
Restored == Over /\ b.st = "ok" /\ ~Replaces(C, job.pre, F) =>
    EnvBad(C, F, job.pre, b.s) = {}
\* B03
Honest == Over =>
    LET trouble == \/ F.sources # "ok" \/ \E i \in DOMAIN F.patches : F.patches[i] # "ok"
                   \/ \E i \in DOMAIN F.steps : F.steps[i].fails
        wants == Wanted(C, job.pre, F)
        missing == \/ Missing(C, job.pre, wants, job.repo)
                   \/ Loop(C, job.pre, wants)
                   \/ \E d \in Range(F.deps) : ~Satisfied(C, job.pre, d) /\
                         (~job.repo \/ Candidates(C, d) = {})
    IN  /\ (b.st # "ok" => made = {})
        /\ (Clear(C, job.pre, F) /\ ~Damaged(C, job.pre, F) =>
               (b.st = "ok") = ~(trouble \/ missing))
        /\ (b.st = "ok" => \A i \in DOMAIN F.steps : ~F.steps[i].fails)
Printed == \/ ~Emit \/ b # Idle
           \/ last'.op \notin {"install", "uninstall", "build"}
           \/ PrintT(ToJson([k |-> k, s |-> s, o |-> last',
                t |-> IF last'.op = "build"
                      THEN Built(C, Fs[last'.j], last'.repo, s).s ELSE s']))
=============================================================================
