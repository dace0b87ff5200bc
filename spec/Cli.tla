-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The commands of the command line, on several environments and a local   *)
(* repository.                                                             *)
(*                                                                         *)
(* The world w is [envs, repo, out]: for each name of an environment its   *)
(* state (spec/Env, and here: whether its directory exists), the files and *)
(* the index of the repository, and the packages in the directory given to *)
(* build.  A catalog has also spec, what list prints for each package.     *)
(*                                                                         *)
(* A command o is [cmd, env, cur, ...]: env is the environment given ("":  *)
(* none), cur the one IPKG_ENVIRONMENT names ("": it is not set).  Others  *)
(* are told by cmd:                                                        *)
(*   install    how ("path" or "text"), i, req, repo                       *)
(*   uninstall  n                                                          *)
(*   get, set   k, v                                                       *)
(*   mkenv      reqs (requirements of the file given), repo, bad (the file *)
(*              or the parent of the environment does not exist)           *)
(*   printenv   export                                                     *)
(*   exec, shell  args, fails                                              *)
(*   build      file, fails (its own commands do), update, keep, deps      *)
(*              (what it needs, with a temporary environment only), repo   *)
(*   mkrepo                                                                *)
(*   buildrepo  formulas: [file, fails]                                    *)
(***************************************************************************)
EXTENDS Env

Builds == {"build", "buildrepo"}
Target(o) == IF o.env # "" THEN o.env
             ELSE IF o.cmd \in Builds \cup {"mkrepo"} THEN "" ELSE o.cur
Lost(o) == Target(o) = "" /\ o.cmd \notin Builds \cup {"mkrepo"}
Asked(c, o) == IF o.how = "text"
               THEN IF o.repo /\ Candidates(c, o.req) # {}
                    THEN Newest(c, o.req) ELSE 0
               ELSE o.i
Fresh == [rec |-> [x \in {} |-> 0], files |-> [x \in {} |-> ""],
          cfg |-> [x \in {} |-> ""], here |-> TRUE]

\* Requirements installed one after the other
RECURSIVE InstallAll(_, _, _, _)
InstallAll(c, s, reqs, repo) ==
    IF reqs = <<>> THEN [st |-> "ok", s |-> s]
    ELSE IF ~repo \/ Candidates(c, Head(reqs)) = {} THEN [st |-> "ipkg", s |-> s]
    ELSE LET r == DoInstall(c, s, Newest(c, Head(reqs)), repo, {})
         IN  IF r.st # "ok" THEN r
             ELSE InstallAll(c, r.s, Tail(reqs), repo)
\* The demands of requirements, and of what they need, are consistent
Clear(c, reqs) ==
    LET top == {Newest(c, d) : d \in {d \in Range(reqs) : Candidates(c, d) # {}}}
        D == Close(c, Fresh, top)
        ds == UNION {Range(P(c, i).deps) : i \in D} \cup Range(reqs)
    IN  /\ Consistent(c, D)
        /\ \A i \in D : P(c, i).ok
        /\ \A d, e \in ds : d.n = e.n => Demand(d) = Demand(e)
\* Whether a build is good ("" : not specified)
Built(c, o) ==
    IF o.cmd # "build" THEN "ok"
    ELSE IF o.deps # <<>> /\ ~Clear(c, o.deps) THEN IF o.fails THEN "bad" ELSE ""
    ELSE IF o.fails \/ InstallAll(c, Fresh, o.deps, o.repo).st # "ok" THEN "bad"
    ELSE "ok"

Same(s, t) == Unchanged(s, t) /\ s.here = t.here
Bag(out, S) == Range(out) = S /\ Len(out) = Cardinality(S)
Listed(c, s) == {IF s.rec[n] > 0 THEN c.spec[s.rec[n]] ELSE "?" : n \in DOMAIN s.rec}
\* The variables of an environment a command or printenv shows
Variables(c, s, mark) ==
    VarsOf(c, Recorded(s)) \cup {<<"IPKG_ENVIRONMENT", "@P">>, <<"IPKGV_MARK", mark>>}
ShownBad(c, s, e) ==
    If(Shown(e.vars) # Variables(c, s, e.mark), "X02.variables")
    \cup If(~({"@P/bin", "@P/sbin"} \subseteq Range(e.path)), "X02.path")
New(files, o) == files \cup {o.file}

(***************************************************************************)
(* What is wrong with command o, run in world w, when it exited as e.st    *)
(* tells ("ok": with 0) and printed e.out, in world e.w afterwards.        *)
(***************************************************************************)
EnvBad(c, s, o, e, t) ==
    CASE o.cmd = "list" ->
            If(e.st # "ok", "X02.list") \cup If(~Same(s, t), "X02.changed")
            \cup If(e.st = "ok" /\ ~Bag(e.out, Listed(c, s)), "X02.list")
      [] o.cmd = "install" ->
            LET i == Asked(c, o) IN
            IF (IF i = 0 THEN NotFoundBad(s, e.st, t)
                ELSE InstallBad(c, s, i, o.repo, e.st, t)) # {}
            THEN {"X02.install"} ELSE {}
      [] o.cmd = "uninstall" ->
            IF UninstallBad(c, s, o.n, e.st, t) # {} THEN {"X02.uninstall"} ELSE {}
      [] o.cmd = "get" ->
            If(~Same(s, t), "X02.changed")
            \cup If(o.k \in DOMAIN s.cfg /\ (e.st # "ok" \/ e.out # <<s.cfg[o.k]>>),
                    "X02.get")
      [] o.cmd = "set" ->
            If(e.st # "ok" \/ t.cfg # (o.k :> o.v) @@ s.cfg, "X02.set")
            \cup If(t.rec # s.rec \/ t.files # s.files, "X02.changed")
      [] o.cmd = "mkenv" ->
            IF s.here \/ o.bad
            THEN If(e.st = "ok", "X02.accepted") \cup If(~Same(s, t), "X02.changed")
            ELSE If(e.st = "ok" /\ ~(t.here /\ e.dirs), "X02.mkenv")
                 \cup (IF ~Clear(c, o.reqs) THEN {}
                       ELSE LET r == InstallAll(c, Fresh, o.reqs, o.repo) IN
                            If(e.st # r.st, "X02.mkenv")
                            \cup If(~Unchanged(t, r.s), "X02.mkenv"))
      [] o.cmd = "printenv" ->
            If(e.st # "ok", "X02.printenv") \cup If(~Same(s, t), "X02.changed")
            \cup ShownBad(c, s, e) \cup If(e.export # o.export, "X02.export")
      [] o.cmd \in {"exec", "shell"} ->
            If((e.st = "ok") # ~o.fails, "X02.status") \cup If(~Same(s, t), "X02.changed")
            \cup (IF e.ran # <<o.args>> THEN {"X02.run"} ELSE ShownBad(c, s, e))
      \* what a failed build leaves is not specified
      [] o.cmd = "build" -> If(~o.fails /\ ~Same(s, t), "X02.changed")
      [] o.cmd = "buildrepo" ->
            If((\A f \in Range(o.formulas) : ~f.fails) /\ ~Same(s, t), "X02.changed")

RepoBad(c, r, q, o, e) ==
    LET same == r.files = q.files /\ r.index = q.index IN
    If(o.cmd \in Builds /\ ~(Range(e.built) \subseteq {o.env}), "X02.environment")
    \cup
    CASE o.cmd = "mkrepo" ->
            If(e.st # "ok" \/ q.files # r.files \/ q.index # r.files, "X02.mkrepo")
      [] o.cmd = "build" ->
            If(Built(c, o) # "" /\ (e.st = "ok") # (Built(c, o) = "ok"), "X02.build")
            \cup If(e.st = "ok" /\ e.left # (IF o.keep THEN 1 ELSE 0), "X02.left")
            \cup (IF o.update /\ ~o.fails
                  THEN If(q.files # New(r.files, o) \/ q.index # New(r.index, o),
                          "X02.build")
                  ELSE If(~same, "X02.repository"))
      [] o.cmd = "buildrepo" ->
            \* those indexed already are not built again
            LET made == {f.file : f \in {f \in Range(o.formulas) : ~f.fails}} IN
            If(e.st # "ok", "X02.status")
            \cup If((\A f \in Range(o.formulas) : ~f.fails) /\ e.left # 0, "X02.left")
            \cup If(q.index # r.index \cup made, "X02.build")
            \cup If(q.files # r.files \cup (made \ r.index), "X02.build")
      [] OTHER -> If(~same, "X02.repository")

CliBad(c, w, o, e) ==
    LET T == Target(o)
        q == e.w
    IN
      If(\E n \in DOMAIN w.envs \ {T} : ~Same(w.envs[n], q.envs[n]), "X02.other")
      \cup RepoBad(c, w.repo, q.repo, o, e)
      \cup (IF o.cmd = "build" /\ ~o.update /\ e.st = "ok"
            THEN If(q.out # New(w.out, o), "X02.package")
            ELSE If(q.out # w.out, "X02.package"))
      \cup (IF Lost(o) THEN If(e.st = "ok", "X02.lost")
            ELSE IF T = "" THEN {}
            ELSE EnvBad(c, w.envs[T], o, e, q.envs[T]))

(***************************************************************************)
(* What the commands on environments do, for model checking                *)
(***************************************************************************)
With(s, r) == [st |-> r.st, s |-> [r.s EXCEPT !.here = s.here]]
DoEnv(c, s, o) ==
    CASE o.cmd = "install" ->
            LET i == Asked(c, o) IN
            IF i = 0 THEN [st |-> "ipkg", s |-> s]
            ELSE DoInstall(c, s, i, o.repo, {})
      [] o.cmd = "uninstall" ->
            IF o.n \in DOMAIN s.rec THEN [st |-> "ok", s |-> DoUninstall(c, s, o.n)]
            ELSE [st |-> "ipkg", s |-> s]
      [] o.cmd = "set" -> [st |-> "ok", s |-> [s EXCEPT !.cfg = (o.k :> o.v) @@ @]]
      [] o.cmd = "mkenv" ->
            IF s.here THEN [st |-> "ipkg", s |-> s]
            ELSE InstallAll(c, [s EXCEPT !.here = TRUE], o.reqs, o.repo)
      [] OTHER -> [st |-> "ok", s |-> s]
DoCli(c, w, o) ==
    IF Lost(o) THEN [st |-> "ipkg", w |-> w]
    ELSE LET r == DoEnv(c, w.envs[Target(o)], o)
         IN  [st |-> r.st, w |-> [w EXCEPT !.envs[Target(o)] = r.s]]
=============================================================================
