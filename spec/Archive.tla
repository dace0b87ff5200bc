------------------------------- MODULE Archive -------------------------------
(***************************************************************************)
(* Archives of sources, and what unpacking one yields.                     *)
(*                                                                         *)
(* An archive is a sequence of members: path, a sequence of components as  *)
(* written ("." and "" may be some of them), k, its kind (d, f, l or h:    *)
(* directory, file, symbolic link, hard link), mode, and c: its content,   *)
(* the target of the symbolic link, or nothing; for a hard link, to is the *)
(* path it is the same file as.                                            *)
(* A tree is a set of items [path, k, mode, c].                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Clean(path) == SelectSeq(path, LAMBDA x : x \notin {".", ""})
Prefixes(path) == {SubSeq(path, 1, i) : i \in 1..(Len(path) - 1)}
Range(s) == {s[i] : i \in DOMAIN s}

\* What is at the top of the archive
Roots(a) == {Clean(m.path)[1] : m \in {m \in Range(a) : Clean(m.path) # <<>>}}
OneRoot(a) == Cardinality(Roots(a)) = 1
RootOf(a) == CHOOSE r \in Roots(a) : TRUE
\* The root is a directory: it is said to be one, or something is in it
IsDirectory(a) == \E m \in Range(a) :
    \/ Len(Clean(m.path)) > 1
    \/ Len(Clean(m.path)) = 1 /\ m.k = "d"

\* Directories are directories, a hard link is to a previous file
WellFormed(a) == \A i \in DOMAIN a :
    LET p == Clean(a[i].path) IN
    /\ \A j \in DOMAIN a : j # i =>
         LET q == Clean(a[j].path) IN
         /\ p \in Prefixes(q) => a[i].k = "d"
         /\ p = q => a[i].k = a[j].k /\ a[i].k \in {"d", "f"}
    /\ p = <<>> => a[i].k = "d"
    /\ a[i].k = "h" =>
         /\ Clean(a[i].to) # p
         /\ \E j \in 1..(i - 1) : Clean(a[j].path) = Clean(a[i].to) /\ a[j].k = "f"
         /\ \A j \in 1..(i - 1) : Clean(a[j].path) = Clean(a[i].to) => a[j].k = "f"
         \* it stays what it was
         /\ \A j \in (i + 1)..Len(a) : Clean(a[j].path) # Clean(a[i].to)

\* The last member of a path decides what is there
Last(a, p) == LET S == {i \in DOMAIN a : Clean(a[i].path) = p}
              IN  CHOOSE i \in S : \A j \in S : j <= i
RECURSIVE Resolve(_, _)
Resolve(a, i) == IF a[i].k # "h" THEN i
                 ELSE Resolve(SubSeq(a, 1, i - 1),
                              Last(SubSeq(a, 1, i - 1), Clean(a[i].to)))
Item(a, p) == LET i == Resolve(a, Last(a, p))
              IN  [path |-> p, k |-> a[i].k, mode |-> a[i].mode, c |-> a[i].c]
Tree(a) ==
    LET named == {Clean(m.path) : m \in Range(a)} \ {<<>>}
        implied == UNION {Prefixes(p) : p \in named} \ named
    IN  {Item(a, p) : p \in named}
        \cup {[path |-> p, k |-> "d", mode |-> "any", c |-> ""] : p \in implied}

Same(want, got, modes) ==
    /\ want.path = got.path /\ want.k = got.k /\ want.c = got.c
    /\ (modes /\ want.k # "l" /\ want.mode # "any") => want.mode = got.mode
\* The items of the target, once those which were there are left out, are
\* exactly those of the archive
Recreated(a, modes, items) ==
    /\ Cardinality(items) = Cardinality(Tree(a))
    /\ \A w \in Tree(a) : \E g \in items : Same(w, g, modes)

If(cond, clause) == IF cond THEN {clause} ELSE {}
(***************************************************************************)
(* Unpacking e.a, in format e.format, in a directory where e.old is.       *)
(* e.whole: "yes" if its file is complete, "cut" if its end is missing     *)
(* (tarfile may not notice), "alien" if it is something else, "other" if   *)
(* it is another kind of archive.                                          *)
(***************************************************************************)
Tars == {"tar.gz", "tar.bz2", "tar.xz"}
Formats == Tars \cup {"zip"}
Refused(e) == \/ e.format \notin Formats \/ e.whole = "alien"
              \/ e.whole = "yes" /\ ~OneRoot(e.a)
UnpackBad(e) ==
    LET new == Range(e.items) \ Range(e.old)
        done == Recreated(e.a, e.format \in Tars, new) /\ Range(e.old) \subseteq Range(e.items)
    IN  If(e.st \notin {"ok", "ipkg"}, "F04.other_error")
        \cup IF Refused(e)
             THEN If(e.st = "ok", "F04.accepted")
                  \cup If(Range(e.items) # Range(e.old), "F04.extracted")
             ELSE IF e.whole = "yes" /\ IsDirectory(e.a)
             THEN If(e.st = "ipkg", "F04.failed")
                  \cup If(e.st = "ok" /\ ~done, "F04.tree")
                  \cup If(e.st = "ok" /\ e.returned # <<RootOf(e.a)>>, "F04.returned")
             ELSE If(e.st = "ok" /\ e.whole # "cut" /\ ~done, "F04.other_tree")
=============================================================================
