------------------------------- MODULE Contain -------------------------------
(***************************************************************************)
(* A file system with links, and what unpacking members and removing files *)
(* does to it.  Paths are sequences of names from the root; the prefix (or *)
(* the directory sources are unpacked in) is <<"P">>, everything else is   *)
(* outside.                                                                *)
(*                                                                         *)
(* fs = [n, c, dirs, links]: n gives the node at each path: [k |-> "d"],   *)
(* [k |-> "l", t |-> target, a |-> absolute?] or [k |-> "f"], i its inode; c *)
(* gives the content and attributes of each inode; the permissions of the  *)
(* directories unpacked, dirs, are set at the end of the archive; links    *)
(* are those which this archive made.                                      *)
(*                                                                         *)
(* A step is [k, path, abs, target, tabs]: unpacking a file "f", directory *)
(* "d", symbolic link "l" or hard link "h", or removing a file "u".        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Base == <<"P">>
Front(s) == SubSeq(s, 1, Len(s) - 1)
Last(s) == s[Len(s)]
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Bottom == <<"?">>     \* a loop of links

Is(fs, p, k) == p \in DOMAIN fs.n /\ fs.n[p].k = k
RECURSIVE Walk(_, _, _, _, _)
\* Where todo leads from directory at; the last component is followed if
\* last; components which do not exist are taken as they are
Walk(fs, at, todo, last, fuel) ==
    IF todo = <<>> THEN at
    ELSE IF fuel = 0 THEN Bottom
    ELSE LET h == Head(todo)
             p == Append(at, h)
         IN  IF h = ".." THEN Walk(fs, IF at = <<>> THEN at ELSE Front(at),
                                   Tail(todo), last, fuel)
             ELSE IF h = "." THEN Walk(fs, at, Tail(todo), last, fuel)
             ELSE IF Is(fs, p, "l") /\ (Len(todo) > 1 \/ last)
             THEN Walk(fs, IF fs.n[p].a THEN <<>> ELSE at,
                       fs.n[p].t \o Tail(todo), last, fuel - 1)
             ELSE Walk(fs, p, Tail(todo), last, fuel)
Fuel == 6
Real(fs, p) == Walk(fs, <<>>, p, TRUE, Fuel)
Place(fs, p) == Walk(fs, <<>>, p, FALSE, Fuel)
Full(m) == IF m.abs THEN m.path ELSE Base \o m.path
Source(m) == IF m.tabs THEN m.target ELSE Base \o m.target

Inside(fs, p) == \* the file named p is inside of the prefix
    /\ p # <<>> /\ Last(p) \notin {"..", "."}
    /\ IsPrefix(Base, Real(fs, Front(p)))

Outside(fs) == [p \in {p \in DOMAIN fs.n : ~IsPrefix(Base, p)} |->
                  IF fs.n[p].k = "f" THEN <<"f", fs.c[fs.n[p].i]>>
                  ELSE <<fs.n[p].k, fs.n[p]>>]

Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
New(fs) == 1 + Cardinality(DOMAIN fs.c)
\* Directories above p which do not exist are created
MakeDirs(fs, p) ==
    LET missing == {SubSeq(p, 1, i) : i \in 1..Len(p)} \ DOMAIN fs.n
    IN  [fs EXCEPT !.n = [d \in missing |-> [k |-> "d", i |-> 0]] @@ fs.n]
RECURSIVE MakeWay(_, _, _, _)
\* Those on the way, which ".." leaves again, are created too
MakeWay(fs, at, todo, fuel) ==
    IF todo = <<>> \/ fuel = 0 THEN fs
    ELSE LET h == Head(todo)
             p == Append(at, h)
         IN  IF h = ".." THEN MakeWay(fs, IF at = <<>> THEN at ELSE Front(at),
                                      Tail(todo), fuel)
             ELSE IF h = "." THEN MakeWay(fs, at, Tail(todo), fuel)
             ELSE IF Is(fs, p, "l")
             THEN MakeWay(fs, IF fs.n[p].a THEN <<>> ELSE at,
                          fs.n[p].t \o Tail(todo), fuel - 1)
             ELSE IF Is(fs, p, "f") THEN fs
             ELSE MakeWay(MakeDirs(fs, p), p, Tail(todo), fuel)
Touch(fs, p) == \* new content, permissions or times of what is at p
    IF Is(fs, p, "f") THEN [fs EXCEPT !.c[fs.n[p].i] = "new"]
    ELSE IF Is(fs, p, "d") /\ ~IsPrefix(Base, p)
    THEN [fs EXCEPT !.n[p].i = 1] ELSE fs
Error(fs) == [fs |-> fs, ok |-> FALSE]
Ok(fs) == [fs |-> fs, ok |-> TRUE]

\* Unpacking a member without any precaution
Unpack(fs, m) ==
    LET q == Full(m)
        d == Real(fs, Front(q))
        made == MakeWay(fs, <<>>, Front(q), Fuel)
        here == Place(made, q)
        there == Real(made, q)
    IN  IF q = <<>> \/ d = Bottom \/ there = Bottom THEN Error(fs)
        ELSE IF \E i \in 1..Len(d) : Is(fs, SubSeq(d, 1, i), "f") THEN Error(fs)
        ELSE IF m.k = "d"
        THEN IF Is(made, there, "f") THEN Error(made)
             ELSE Ok([MakeDirs(made, there) EXCEPT !.dirs = @ \cup {q}])
        ELSE IF Last(q) \in {"..", "."} THEN Error(made)
        ELSE CASE m.k = "f" ->
                    IF Is(made, there, "d") THEN Error(made)
                    ELSE IF Is(made, there, "f") THEN Ok(Touch(made, there))
                    ELSE Ok([made EXCEPT
                              !.n = (there :> [k |-> "f", i |-> New(made)]) @@ made.n,
                              !.c = (New(made) :> "new") @@ made.c])
               [] m.k = "l" ->
                    IF here \in DOMAIN made.n THEN Error(made)
                    ELSE Ok([made EXCEPT !.n = (here :>
                           [k |-> "l", t |-> m.target, a |-> m.tabs]) @@ made.n])
               [] m.k = "h" ->
                    LET s == Place(made, Source(m)) IN
                    IF here \in DOMAIN made.n \/ s \notin DOMAIN made.n \/
                       Is(made, s, "d") THEN Error(made)
                    ELSE LET r == [made EXCEPT !.n = (here :> made.n[s]) @@ made.n]
                         IN  Ok(Touch(r, Real(r, here)))
\* Removing a file without any precaution
Remove(fs, m) ==
    LET here == Place(fs, Full(m)) IN
    IF Is(fs, here, "f") \/ Is(fs, here, "l")
    THEN Ok([fs EXCEPT !.n = Drop(fs.n, {here})]) ELSE Ok(fs)
RECURSIVE TouchAll(_, _)
TouchAll(fs, S) == IF S = {} THEN fs
                   ELSE LET q == CHOOSE q \in S : TRUE
                        IN  TouchAll(Touch(fs, Real(fs, q)), S \ {q})
End(fs) == [TouchAll(fs, fs.dirs) EXCEPT !.dirs = {}, !.links = {}]
Careless(fs, m) == CASE m.k = "e" -> Ok(End(fs))
                     [] m.k = "u" -> Remove(fs, m)
                     [] OTHER -> Unpack(fs, m)

(***************************************************************************)
(* The precautions: a member is refused unless what is about to be written *)
(* is inside of the prefix, whatever has been unpacked before it; what is  *)
(* in the way is removed rather than written to, unless it is a link made  *)
(* by this archive; the copy of a link does not lead outside.  One of the  *)
(* precautions, w, may be forgotten.                                       *)
(***************************************************************************)
Precautions == {"way", "parent", "target", "copy", "again", "dir",
                "removal", "links"}
Lexical(p) == Walk([n |-> <<>>], <<>>, p, TRUE, Fuel)
Careful(fs, m, w) ==
    LET q == Full(m)
        parent == IF w = "parent" THEN Lexical(Front(q)) ELSE Real(fs, Front(q))
        path == Append(parent, Last(q))
        in(f, p) == p # <<>> /\ Last(p) \notin {"..", "."} /\
                    IsPrefix(Base, IF w = "links" THEN Lexical(Front(p))
                                   ELSE Real(f, Front(p)))
        clear == IF m.k # "d" /\ in(fs, path) /\ w # "way" /\
                    (Is(fs, path, "l") \/ Is(fs, path, "f"))
                 THEN [fs EXCEPT !.n = Drop(fs.n, {path})] ELSE fs
        source == Place(fs, Source(m))
        copied == IF Is(fs, source, "l") THEN fs.n[source] ELSE [a |-> FALSE, t |-> <<>>]
        checked == IF m.k = "d"
                   THEN IF w = "dir" THEN {path} ELSE {Append(Real(fs, path), "file")}
                   ELSE {path}
                   \cup (IF m.k = "h" /\ w # "target" THEN {Source(m)} ELSE {})
                   \cup (IF m.k = "h" /\ w # "target"
                         THEN {Real(clear, Source(m))} ELSE {})
                   \cup (IF m.k = "h" /\ w \notin {"copy", "target"} /\ Is(fs, source, "l")
                         THEN {Append(Walk(clear, IF copied.a THEN <<>> ELSE parent,
                                           copied.t, TRUE, Fuel), "file")}
                         ELSE {})
        r == Unpack(clear, m)
    IN  CASE m.k = "e" -> Ok(End(fs))
          [] m.k = "u" -> IF w = "removal" \/ in(fs, q) THEN Remove(fs, m) ELSE Ok(fs)
          [] OTHER ->
             IF q = <<>> \/ parent = Bottom THEN Error(fs)
             ELSE IF (path \in fs.links /\ w # "again") \/
                     \E p \in checked : ~in(clear, p)
             THEN Error(clear)
             ELSE IF Is(r.fs, path, "l") /\ r.ok
             THEN Ok([r.fs EXCEPT !.links = @ \cup {path}]) ELSE r
=============================================================================
