------------------------------- MODULE Build --------------------------------
(***************************************************************************)
(* Building one formula, in an environment of spec/Env.                    *)
(*                                                                         *)
(* A formula f is [deps, sources, patches, steps]:                         *)
(*  deps     requirements                                                  *)
(*  sources  "ok", or what is wrong with them                              *)
(*  patches  sequence of "ok" or what is wrong with them                   *)
(*  steps    sequence of [kind, fails, run, puts]: kind is "command" or    *)
(*           "raise"; run is how the command must see itself run, or <<>>  *)
(*           if it is never run (there is none by this name); puts are     *)
(*           [path, tok]: what the step makes ("none" removes).            *)
(*                                                                         *)
(* A build b is [ph, k, s, base, log, st, added]: the phase, the position  *)
(* in it, the environment, the paths there were before the steps, the      *)
(* commands run, the outcome and the files added.                          *)
(***************************************************************************)
EXTENDS Env

Begin(s) == [ph |-> "deps", k |-> 1, s |-> s, base |-> {}, log |-> <<>>, st |-> "run",
             added |-> [x \in {} |-> ""]]
Fails(b) == [b EXCEPT !.ph = "over", !.st = "ipkg"]
Goes(b, ph) == [b EXCEPT !.ph = ph, !.k = 1]
Puts(files, puts) ==
    LET gone == {puts[i].path : i \in {i \in DOMAIN puts : puts[i].tok = "none"}}
        made == {puts[i].path : i \in DOMAIN puts} \ gone
    IN  [x \in (DOMAIN files \ gone) \cup made |->
           IF x \in made THEN (CHOOSE i \in DOMAIN puts : puts[i].path = x /\
                                  \A j \in DOMAIN puts : puts[j].path = x => j <= i) 
                ELSE 0]
PutAll(files, puts) ==
    LET m == Puts(files, puts)
    IN  [x \in DOMAIN m |-> IF m[x] = 0 THEN files[x] ELSE puts[m[x]].tok]
\* Names are removed in any order: none needs another to be removed
RECURSIVE RemoveAll(_, _, _)
RemoveAll(c, s, N) ==
    IF N = {} THEN s
    ELSE LET n == CHOOSE n \in N : TRUE
         IN  RemoveAll(c, DoUninstall(c, s, n), N \ {n})

BuildStep(c, f, repo, before, b) ==
    CASE b.ph = "deps" ->
            IF b.k > Len(f.deps) THEN Goes(b, "sources")
            ELSE IF Satisfied(c, b.s, f.deps[b.k]) THEN [b EXCEPT !.k = @ + 1]
            ELSE IF ~repo \/ Candidates(c, f.deps[b.k]) = {} THEN Fails(b)
            ELSE LET r == DoInstall(c, b.s, Newest(c, f.deps[b.k]), TRUE, {})
                 IN  IF r.st = "ok" THEN [b EXCEPT !.s = r.s, !.k = @ + 1]
                     ELSE Fails([b EXCEPT !.s = r.s])
      [] b.ph = "sources" ->
            IF f.sources = "ok" THEN Goes(b, "patches") ELSE Fails(b)
      [] b.ph = "patches" ->
            IF b.k > Len(f.patches)
            THEN [Goes(b, "steps") EXCEPT !.base = DOMAIN b.s.files]
            ELSE IF f.patches[b.k] = "ok" THEN [b EXCEPT !.k = @ + 1] ELSE Fails(b)
      [] b.ph = "steps" ->
            IF b.k > Len(f.steps) THEN Goes(b, "pack")
            ELSE LET t == f.steps[b.k]
                     d == [b EXCEPT !.s.files = PutAll(@, t.puts),
                                    !.log = @ \o t.run, !.k = @ + 1]
                 IN  IF t.fails THEN Fails(d) ELSE d
      [] b.ph = "pack" ->
            [Goes(b, "clean") EXCEPT
                !.added = [x \in DOMAIN b.s.files \ b.base |-> b.s.files[x]]]
      [] b.ph = "clean" ->
            LET s == [b.s EXCEPT !.files = Drop(@, DOMAIN b.added)]
                new == DOMAIN s.rec \ DOMAIN before.rec
            IN  [b EXCEPT !.ph = "over", !.st = "ok", !.s = RemoveAll(c, s, new)]

RECURSIVE Run(_, _, _, _, _)
Run(c, f, repo, before, b) ==
    IF b.ph = "over" THEN b
    ELSE Run(c, f, repo, before, BuildStep(c, f, repo, before, b))
Built(c, f, repo, before) == Run(c, f, repo, before, Begin(before))

\* Everything a build may have to install
Wanted(c, s, f) ==
    LET top == {Newest(c, d) : d \in {d \in Range(f.deps) :
                  ~Satisfied(c, s, d) /\ Candidates(c, d) # {}}}
    IN  Close(c, s, top)
\* The demands are consistent, those of the formula included
Clear(c, s, f) ==
    LET D == Wanted(c, s, f)
        ds == UNION {Range(P(c, i).deps) : i \in D} \cup Range(f.deps)
    IN  /\ Consistent(c, D)
        /\ \A d, e \in ds : d.n = e.n => Demand(d) = Demand(e)
Replaces(c, s, f) == \E i \in Wanted(c, s, f) : Rec(s, P(c, i).n) # 0
\* A package which cannot be unpacked
Damaged(c, s, f) == \E i \in Wanted(c, s, f) : ~P(c, i).ok
Touched(f) == UNION {{f.steps[k].puts[i].path : i \in DOMAIN f.steps[k].puts} :
                       k \in DOMAIN f.steps}

(***************************************************************************)
(* What is wrong with a build of f from state pre, whose outcome is st,    *)
(* after which the environment is in state post; log are the commands as   *)
(* they saw themselves run; made: a package was found afterwards; damaged: *)
(* a package it may have to install cannot be unpacked.                    *)
(***************************************************************************)
\* Files there were where packages installed for the build have theirs
Lost(c, f, pre) == {x \in UNION {Paths(c, i) : i \in Wanted(c, pre, f)} :
                      File(pre, x) # "none"}
EnvBad(c, f, pre, post) ==
    If(post.rec # pre.rec, "B02.packages")
    \cup If(\E x \in AllPaths(pre, post) \ (Touched(f) \cup Lost(c, f, pre)) : File(pre, x) # File(post, x),
            "B02.files")
    \cup If(\E x \in Touched(f) : File(pre, x) = "none" /\ File(post, x) # "none",
            "B02.added")
    \cup If(\E x \in Touched(f) \ Lost(c, f, pre) :
               File(pre, x) # "none" /\ File(post, x) = "none" /\
               ~\E k \in DOMAIN f.steps : \E i \in DOMAIN f.steps[k].puts :
                   f.steps[k].puts[i] = [path |-> x, tok |-> "none"], "B02.removed")
    \cup If(post.cfg # pre.cfg, "B02.config")
OutcomeBad(b, st, log, made, damaged) ==
    If(b.st = "ok" /\ st # "ok", "B03.failed")
    \cup If(b.st # "ok" /\ st = "ok", "B03.accepted")
    \cup If(b.st # "ok" /\ st \notin {"ok", "ipkg"} /\ ~damaged, "B03.error")
    \cup If(st # "ok" /\ made, "B03.package")
    \cup If(log # b.log, "B03.steps")
=============================================================================
