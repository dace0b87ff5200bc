-------------------------------- MODULE Env --------------------------------
(***************************************************************************)
(* Environments: what installing and uninstalling packages must do.        *)
(*                                                                         *)
(* A catalog c is [pkgs, repo, dirs, varnames]:                            *)
(*  pkgs : sequence of packages [n, p, v, r, deps, files, vars, ok]; deps  *)
(*         are requirements, files are [path, tok] (tok describes content, *)
(*         kind and permissions), vars are [name, raw, text, parts] and ok *)
(*         tells whether the archive is readable;                          *)
(*  repo : sequence of the indexes of the packages of the repository;      *)
(*  dirs : the directories of an environment.                              *)
(*                                                                         *)
(* A state s is [rec, files, cfg]: for each installed name the index of    *)
(* the package (-1: it is none of the catalog), for each path what is      *)
(* there, for each option its value.                                       *)
(***************************************************************************)
EXTENDS Requirements, TLC

P(c, i) == c.pkgs[i]
Paths(c, i) == {f.path : f \in Range(P(c, i).files)}
Tok(c, i, path) == (CHOOSE f \in Range(P(c, i).files) : f.path = path).tok
At(f, x, default) == IF x \in DOMAIN f THEN f[x] ELSE default
Rec(s, n) == At(s.rec, n, 0)
File(s, path) == At(s.files, path, "none")
Names(c, S) == {P(c, i).n : i \in S}
If(cond, clause) == IF cond THEN {clause} ELSE {}

Satisfied(c, s, d) == \E n \in DOMAIN s.rec :
                         s.rec[n] > 0 /\ Sat(d, P(c, s.rec[n]))
Unsat(c, s, i) == {d \in Range(P(c, i).deps) : ~Satisfied(c, s, d)}

Candidates(c, d) == {i \in Range(c.repo) : Sat(d, P(c, i))}
NewestOf(c, S) == CHOOSE i \in S : \A j \in S :
                     ~VRLess(P(c, i).v, P(c, i).r, P(c, j).v, P(c, j).r)
Newest(c, d) == NewestOf(c, Candidates(c, d))

\* The packages installed for i, each with the newest satisfying candidate
Succ(c, s, i) == {Newest(c, d) : d \in {d \in Unsat(c, s, i) :
                                          Candidates(c, d) # {}}}
RECURSIVE Close(_, _, _)
Close(c, s, S) ==
    LET T == S \cup UNION {Succ(c, s, i) : i \in S}
    IN  IF T = S THEN S ELSE Close(c, s, T)
Needed(c, s, i, repo) == IF repo THEN Close(c, s, {i}) ELSE {i}
\* Every name an installation may have to do with, whatever is chosen
RECURSIVE Possible(_, _)
Possible(c, S) ==
    LET T == S \cup UNION {Candidates(c, d) :
                             d \in UNION {Range(P(c, i).deps) : i \in S}}
    IN  IF T = S THEN S ELSE Possible(c, T)

Demand(d) == <<d.p, {<<t.o, Key(t.v)>> : t \in Range(d.s)}>>
\* No two of the packages D demand different versions of the same package,
\* nor does one demand another version of a package of D
Consistent(c, D) ==
    LET ds == UNION {Range(P(c, i).deps) : i \in D} IN
    /\ \A d, e \in ds : d.n = e.n => Demand(d) = Demand(e)
    /\ \A i \in D, d \in ds : d.n = P(c, i).n => Sat(d, P(c, i))
    /\ \A i, j \in D : P(c, i).n = P(c, j).n => i = j

Missing(c, s, D, repo) ==
    \E i \in D : \E d \in Unsat(c, s, i) : ~repo \/ Candidates(c, d) = {}
RECURSIVE ReachFrom(_, _, _, _)
ReachFrom(c, s, D, S) ==
    LET T == S \cup UNION {Succ(c, s, i) \cap D : i \in S}
    IN  IF T = S THEN S ELSE ReachFrom(c, s, D, T)
Loop(c, s, D) == \E i \in D : i \in ReachFrom(c, s, D, Succ(c, s, i) \cap D)

(***************************************************************************)
(* Clauses broken when package i was asked for in state pre, with or       *)
(* without a repository, and the outcome is st and state post.             *)
(***************************************************************************)
Intact(c, pre, post, n) ==
    \* the files of package n are as they were before, or as packaged
    LET i == Rec(post, n) IN
    i > 0 => \A f \in Paths(c, i) :
                \/ File(post, f) = Tok(c, i, f)
                \/ Rec(pre, n) = i /\ File(post, f) = File(pre, f)

AllPaths(pre, post) == DOMAIN pre.files \cup DOMAIN post.files
Unchanged(pre, post) == pre.rec = post.rec /\ pre.files = post.files
                        /\ pre.cfg = post.cfg

SuccessBad(c, pre, i, repo, post) ==
    LET n == P(c, i).n
        D == Needed(c, pre, i, repo)
        changed == {x \in DOMAIN pre.rec \cup DOMAIN post.rec :
                      Rec(pre, x) # Rec(post, x)}
        new == {Rec(post, x) : x \in changed} \ {0, -1}
        old == {Rec(pre, x) : x \in changed} \ {0, -1}
        newPaths == UNION {Paths(c, j) : j \in new}
        oldPaths == UNION {Paths(c, j) : j \in old}
        possible == Names(c, Possible(c, {i}))
    IN
      If(Rec(post, n) # i, "E01.recorded")
      \cup If(Rec(post, n) # i /\ Rec(pre, n) # 0, "E04.recorded")
      \cup If(\E x \in changed : Rec(post, x) = -1, "E01.metadata")
      \cup If(\E j \in new \cup {i} : \E f \in Paths(c, j) :
                 File(post, f) # Tok(c, j, f), "E01.files")
      \cup If(Rec(pre, n) # 0 /\ \E f \in Paths(c, i) :
                 File(post, f) # Tok(c, i, f), "E04.files")
      \cup If(changed \ possible # {}, "E01.others")
      \cup If(\E x \in changed : Rec(post, x) = 0, "E01.others")
      \cup If(\E f \in AllPaths(pre, post) \ (newPaths \cup oldPaths) :
                 File(pre, f) # File(post, f), "E01.other_files")
      \cup If(\E f \in oldPaths \ newPaths : File(post, f) # "none",
              "E04.stale")
      \cup If(pre.cfg # post.cfg, "E01.config")
      \cup (IF ~Consistent(c, D) THEN {}
            ELSE If(\E j \in D : Rec(post, P(c, j).n) # j, "E02.newest")
                 \cup If(changed \ Names(c, D) # {}, "E02.needless")
                 \cup If(\E j \in D : \E d \in Range(P(c, j).deps) :
                            ~Satisfied(c, post, d), "E02.satisfied")
                 \cup If(\E j \in D : \E f \in Paths(c, j) :
                            File(post, f) # Tok(c, j, f), "E02.files"))

\* Every failure; keep: the requested name must stay as it is
FailureBad(c, pre, i, repo, keep, post) ==
    LET n == P(c, i).n
        D == Needed(c, pre, i, repo)
        ok(x) == \/ Rec(post, x) = Rec(pre, x)
                 \/ /\ repo
                    /\ \/ Rec(post, x) \in Possible(c, {i}) \ {i}
                       \* replaced by a package which could not be unpacked
                       \/ /\ Rec(post, x) = 0
                          /\ \E j \in Possible(c, {i}) : P(c, j).n = x
                                                         /\ ~P(c, j).ok
        touched == UNION {Paths(c, j) : j \in Possible(c, {i})}
                   \cup UNION {Paths(c, Rec(pre, x)) : x \in
                          {x \in DOMAIN pre.rec :
                             Rec(pre, x) > 0 /\
                             (x = n \/ Rec(post, x) # Rec(pre, x))}}
    IN
      If(\E x \in (DOMAIN pre.rec \cup DOMAIN post.rec) \ {n} : ~ok(x),
         "E07.others")
      \cup If(Rec(post, n) \notin {0, Rec(pre, n)}, "E07.recorded")
      \cup If(keep /\ Rec(post, n) \notin {0, Rec(pre, n)}, "E02.recorded")
      \cup If(keep /\ \E f \in Paths(c, i) : File(post, f) # File(pre, f)
                                            /\ File(post, f) = Tok(c, i, f),
              "E02.extracted")
      \cup If(keep /\ Rec(post, n) # Rec(pre, n), "E07.replaced")
      \cup If(keep /\ Rec(pre, n) > 0 /\
              \E f \in Paths(c, Rec(pre, n)) : File(post, f) # File(pre, f),
              "E07.replaced_files")
      \cup If(\E x \in DOMAIN post.rec : ~Intact(c, pre, post, x),
              "E07.files")
      \cup If(\E f \in AllPaths(pre, post) \ touched :
                 File(pre, f) # File(post, f), "E07.other_files")
      \cup If(pre.cfg # post.cfg, "E07.config")

InstallBad(c, pre, i, repo, st, post) ==
    LET n == P(c, i).n
        D == Needed(c, pre, i, repo)
        consistent == Consistent(c, D)
        missing == Missing(c, pre, D, repo)
        loop == repo /\ Loop(c, pre, D)
        broken == \E j \in D : ~P(c, j).ok
        same == Rec(pre, n) > 0 /\ VREq(P(c, Rec(pre, n)).v, P(c, Rec(pre, n)).r,
                                        P(c, i).v, P(c, i).r)
    IN
    IF same /\ P(c, i).ok THEN If(st # "ok" \/ ~Unchanged(pre, post), "E04.same")
    ELSE IF st = "ok"
    THEN If(consistent /\ (missing \/ loop), "E02.accepted")
         \cup If(~P(c, i).ok /\ Rec(pre, n) # i, "E07.accepted")
         \cup If(~P(c, i).ok /\ Rec(pre, n) # i, "E01.accepted")
         \cup (IF P(c, i).ok THEN SuccessBad(c, pre, i, repo, post) ELSE {})
    ELSE FailureBad(c, pre, i, repo,
                    same \/ (consistent /\ (missing \/ loop) /\ ~broken), post)
         \cup (IF consistent /\ (missing \/ loop)
               THEN If(st # "ipkg" /\ ~broken, "E02.error")
               ELSE IF consistent /\ ~broken
               THEN {"E01.failed", "E02.failed"}
                    \cup If(Rec(pre, n) # 0, "E04.failed")
                    \cup If(\E j \in D : \E x \in Range(P(c, j).vars) : x.raw,
                            "E11.failed")
               ELSE {})

\* Nothing by that name, or no package at all
NotFoundBad(pre, st, post) ==
    If(st = "ok", "E07.accepted")
    \cup If(pre.rec # post.rec, "E07.others")
    \cup If(pre.files # post.files, "E07.other_files")
    \cup If(pre.cfg # post.cfg, "E07.config")

UninstallBad(c, pre, n, st, post) ==
    LET i == Rec(pre, n) IN
    IF n \notin DOMAIN pre.rec
    THEN If(st # "ipkg", "E03.not_installed")
         \cup If(~Unchanged(pre, post), "E03.changed")
    ELSE IF st # "ok" THEN {"E03.failed"}
    ELSE If(n \in DOMAIN post.rec, "E03.record")
         \cup If(\E x \in (DOMAIN pre.rec \cup DOMAIN post.rec) \ {n} :
                    Rec(pre, x) # Rec(post, x), "E03.others")
         \cup If(i > 0 /\ \E f \in Paths(c, i) : File(post, f) # "none",
                 "E03.files")
         \cup If(i > 0 /\ \E f \in AllPaths(pre, post) \ Paths(c, i) :
                    File(pre, f) # File(post, f), "E03.other_files")
         \cup If(pre.cfg # post.cfg, "E03.config")

(***************************************************************************)
(* Package variables                                                       *)
(***************************************************************************)
RECURSIVE Expand(_, _)
Expand(parts, dirs) ==
    IF parts = <<>> THEN ""
    ELSE (IF Head(parts).d = "" THEN Head(parts).t ELSE dirs[Head(parts).d])
         \o Expand(Tail(parts), dirs)
Value(c, x) == IF x.raw THEN x.text ELSE Expand(x.parts, c.dirs)
VarsOf(c, S) == UNION {{<<x.name, Value(c, x)>> : x \in Range(P(c, i).vars)}
                       : i \in S}
Shown(vars) == {<<x, vars[x]>> : x \in DOMAIN vars}
Recorded(s) == {s.rec[n] : n \in DOMAIN s.rec} \ {0, -1}
AvailableBad(c, pre, i, post, live) ==
    LET new == {i} \cup ({Rec(post, x) : x \in
                  {x \in DOMAIN post.rec : Rec(pre, x) # Rec(post, x)}} \ {0, -1})
    IN  If(~(VarsOf(c, new) \subseteq Shown(live)), "E11.available")
ReopenedVarsBad(c, post, again) ==
    If(Shown(again) # VarsOf(c, Recorded(post)), "E11.reopened")

(***************************************************************************)
(* The algorithm the implementation follows, step by step, for model       *)
(* checking: dependencies first, in order, then the replacement.           *)
(***************************************************************************)
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
DoUninstall(c, s, n) ==
    [s EXCEPT !.rec = Drop(s.rec, {n}),
              !.files = Drop(s.files, Paths(c, s.rec[n]))]
Extract(c, s, i) ==
    [s EXCEPT !.files = [f \in Paths(c, i) |-> Tok(c, i, f)] @@ s.files,
              !.rec = (P(c, i).n :> i) @@ s.rec]

RECURSIVE DoInstall(_, _, _, _, _), DoDeps(_, _, _, _, _)
DoInstall(c, s, i, repo, stack) ==
    LET n == P(c, i).n
        old == Rec(s, n)
        r == DoDeps(c, s, P(c, i).deps, repo, stack \cup {n})
        t == IF old # 0 THEN DoUninstall(c, r.s, n) ELSE r.s
    IN  IF n \in stack THEN [st |-> "ipkg", s |-> s]
        ELSE IF old > 0 /\ VREq(P(c, old).v, P(c, old).r, P(c, i).v, P(c, i).r)
        THEN [st |-> "ok", s |-> s]
        ELSE IF r.st # "ok" THEN r
        ELSE IF ~P(c, i).ok THEN [st |-> "ipkg", s |-> t]
        ELSE [st |-> "ok", s |-> Extract(c, t, i)]
DoDeps(c, s, deps, repo, stack) ==
    IF deps = <<>> THEN [st |-> "ok", s |-> s]
    ELSE LET d == Head(deps) IN
         IF Satisfied(c, s, d) THEN DoDeps(c, s, Tail(deps), repo, stack)
         ELSE IF ~repo \/ Candidates(c, d) = {} THEN [st |-> "ipkg", s |-> s]
         ELSE LET r == DoInstall(c, s, Newest(c, d), repo, stack) IN
              IF r.st # "ok" THEN r
              ELSE DoDeps(c, r.s, Tail(deps), repo, stack)

(***************************************************************************)
(* Dying in the middle of an operation which leads from pre to post: what  *)
(* must hold of the state p found afterwards.  S are the packages the      *)
(* operation may install.                                                  *)
(***************************************************************************)
Changed(pre, post) == {x \in DOMAIN pre.rec \cup DOMAIN post.rec :
                         Rec(pre, x) # Rec(post, x)}
PathsOf(c, pre, names) ==
    UNION {Paths(c, Rec(pre, x)) : x \in {x \in names : Rec(pre, x) > 0}}
PointBad(c, pre, post, S, p) ==
    LET ch == Changed(pre, post)
        new == UNION {Paths(c, j) : j \in S}
        here == DOMAIN pre.rec \cup DOMAIN p.rec
        moved == {n \in here : Rec(p, n) # Rec(pre, n)}
    IN
      If(moved \ (ch \cup Names(c, S)) # {}, "E06.others")
      \cup If(\E n \in DOMAIN pre.rec \ (ch \cup Names(c, S)) :
                 Rec(pre, n) > 0 /\
                 \E f \in Paths(c, Rec(pre, n)) : File(p, f) # File(pre, f),
              "E06.others_files")
      \cup If(\E n \in moved : Rec(p, n) # 0 /\
                 (Rec(p, n) = -1 \/
                  \E f \in Paths(c, Rec(p, n)) :
                     File(p, f) # Tok(c, Rec(p, n), f)), "E06.incomplete")
      \cup If(\E n \in moved : Rec(pre, n) > 0 /\
                 \E f \in Paths(c, Rec(pre, n)) \ new : File(p, f) # "none",
              "E06.leftover")
      \cup If(\E f \in DOMAIN pre.files \ (new \cup PathsOf(c, pre, ch)) :
                 File(p, f) # File(pre, f), "E06.other_files")
      \cup If(p.cfg # pre.cfg, "E06.config")
\* The operation was done again: r
RedoneBad(c, pre, post, r) ==
    LET all == UNION {Paths(c, i) : i \in 1..Len(c.pkgs)} IN
    If(r.rec # post.rec, "E06.redone")
    \cup If(\E f \in all \cup DOMAIN pre.files : File(r, f) # File(post, f),
            "E06.redone_files")
    \cup If(r.cfg # post.cfg, "E06.redone_config")

\* The steps of an installation (DoInstall) or of a removal, one file a step
PathSeq(c, i) == [k \in 1..Len(P(c, i).files) |-> P(c, i).files[k].path]
Removal(c, i) ==
    [k \in 1..Len(P(c, i).files) |-> <<"rm", PathSeq(c, i)[k], "">>]
    \o <<<<"unrecord", P(c, i).n, "">>>>
RECURSIVE Extraction(_, _, _)
Extraction(c, i, k) ==
    IF k > Len(P(c, i).files) THEN <<<<"record", P(c, i).n, i>>>>
    ELSE LET f == P(c, i).files[k] IN
         <<<<"put", f.path, "partial">>, <<"put", f.path, f.tok>>>>
         \o Extraction(c, i, k + 1)
Apply1(s, t) ==
    CASE t[1] = "rm" -> [s EXCEPT !.files = Drop(s.files, {t[2]})]
      [] t[1] = "put" -> [s EXCEPT !.files = (t[2] :> t[3]) @@ s.files]
      [] t[1] = "record" -> [s EXCEPT !.rec = (t[2] :> t[3]) @@ s.rec]
      [] t[1] = "unrecord" -> [s EXCEPT !.rec = Drop(s.rec, {t[2]})]
RECURSIVE Steps(_, _, _, _, _), StepsDeps(_, _, _, _, _)
Steps(c, s, i, repo, stack) ==
    LET n == P(c, i).n
        old == Rec(s, n)
        d == StepsDeps(c, s, P(c, i).deps, repo, stack \cup {n})
        r == DoDeps(c, s, P(c, i).deps, repo, stack \cup {n})
    IN  IF n \in stack THEN <<>>
        ELSE IF old > 0 /\ VREq(P(c, old).v, P(c, old).r, P(c, i).v, P(c, i).r)
        THEN <<>>
        ELSE IF r.st # "ok" THEN d
        ELSE d \o (IF old > 0 THEN Removal(c, old) ELSE <<>>)
               \o (IF P(c, i).ok THEN Extraction(c, i, 1) ELSE <<>>)
StepsDeps(c, s, deps, repo, stack) ==
    IF deps = <<>> THEN <<>>
    ELSE LET d == Head(deps) IN
         IF Satisfied(c, s, d) THEN StepsDeps(c, s, Tail(deps), repo, stack)
         ELSE IF ~repo \/ Candidates(c, d) = {} THEN <<>>
         ELSE LET j == Newest(c, d)
                  r == DoInstall(c, s, j, repo, stack)
              IN  Steps(c, s, j, repo, stack) \o
                  (IF r.st # "ok" THEN <<>>
                   ELSE StepsDeps(c, r.s, Tail(deps), repo, stack))
=============================================================================
