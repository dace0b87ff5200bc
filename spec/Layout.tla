------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The directories of an environment: making them, making temporary ones   *)
(* and removing those.                                                     *)
(*                                                                         *)
(* A state s is what is around an environment: [tree, pre].  tree is a     *)
(* function of paths: "d" is a directory, any other text something else    *)
(* (with its content); pre is the path of the prefix.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Names == [prefix |-> "", bin |-> "/bin", sbin |-> "/sbin", lib |-> "/lib",
          include |-> "/include", share |-> "/share", man |-> "/share/man",
          pkgconfig |-> "/lib/pkgconfig", tmp |-> "/tmp"]
If(cond, clause) == IF cond THEN {clause} ELSE {}
Dirs(s) == {s.pre \o Names[n] : n \in DOMAIN Names}
Tmp(s) == s.pre \o "/tmp"
IsDir(s, p) == p \in DOMAIN s.tree /\ s.tree[p] = "d"
There(s) == Dirs(s) \cap DOMAIN s.tree
Same(s, t, paths) == \A p \in paths : p \in DOMAIN t.tree /\ t.tree[p] = s.tree[p]

\* The names of the directories
NamesBad(s, dirs) ==
    If(DOMAIN dirs # DOMAIN Names \/
       \E n \in DOMAIN Names \cap DOMAIN dirs : dirs[n] # s.pre \o Names[n],
       "E12.names")

\* The directories are made; parent: that of the prefix is a directory;
\* tolerant: whatever is there already
Creatable(s, parent, tolerant) ==
    /\ parent
    /\ IF tolerant THEN \A p \in There(s) : IsDir(s, p) ELSE There(s) = {}
CreateBad(s, parent, tolerant, st, t) ==
    If(~Same(s, t, DOMAIN s.tree), "E12.create_changes")
    \cup If(\E p \in DOMAIN t.tree \ DOMAIN s.tree :
              p \notin Dirs(s) \/ t.tree[p] # "d", "E12.create_more")
    \cup IF Creatable(s, parent, tolerant)
         THEN If(st # "ok", "E12.create_fails")
              \cup If(\E p \in Dirs(s) : ~IsDir(t, p), "E12.create_less")
         ELSE If(st # "ipkg", "E12.create_reports")
              \cup If(~tolerant /\ t.tree # s.tree, "E12.create_anyway")

\* It dies before the end
CreateDies(s, t) ==
    If(~Same(s, t, DOMAIN s.tree), "E12.create_changes")
    \cup If(\E p \in DOMAIN t.tree \ DOMAIN s.tree :
              p \notin Dirs(s) \/ t.tree[p] # "d", "E12.create_more")

\* A new temporary directory, path: starts, its name starts as wanted; below,
\* it is in tmp; private, nobody else may use it
TempBad(s, st, path, starts, below, private, t) ==
    IF ~IsDir(s, Tmp(s)) THEN If(t.tree # s.tree, "E12.temp_changes")
    ELSE If(st # "ok", "E12.temp_fails")
         \cup If(~Same(s, t, DOMAIN s.tree), "E12.temp_changes")
         \cup If(st = "ok" /\ (path \in DOMAIN s.tree \/
                     DOMAIN t.tree # DOMAIN s.tree \cup {path} \/
                     ~IsDir(t, path)), "E12.temp_new")
         \cup If(st = "ok" /\ ~below, "E12.temp_place")
         \cup If(st = "ok" /\ ~starts, "E12.temp_name")
         \cup If(st = "ok" /\ ~private, "E12.temp_private")

\* All temporary files are removed; inside: the paths below tmp
CleanBad(s, inside, st, t) ==
    IF ~IsDir(s, Tmp(s))
    THEN If(~Same(s, t, DOMAIN s.tree), "E12.clean_changes")
    ELSE If(st # "ok", "E12.clean_fails")
         \cup If(~Same(s, t, DOMAIN s.tree \ (inside \cup {Tmp(s)})),
                 "E12.clean_changes")
         \cup If(~ DOMAIN t.tree \subseteq DOMAIN s.tree, "E12.clean_more")
         \cup If(DOMAIN t.tree \cap inside # {}, "E12.clean_less")
         \cup If(~IsDir(t, Tmp(s)), "E12.clean_tmp")
CleanDies(s, inside, t) ==
    If(~Same(s, t, DOMAIN s.tree \ (inside \cup {Tmp(s)})), "E12.clean_changes")
    \cup If(~ DOMAIN t.tree \subseteq DOMAIN s.tree, "E12.clean_more")
=============================================================================
