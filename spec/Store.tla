------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Dictionaries stored in a file.                                          *)
(*                                                                         *)
(* A state s has the file: [k |-> kind, c |-> content], and the content of *)
(* the objects: objs, a function.  A content is a function of keys.  The   *)
(* file is absent, empty, good (c is what it stores) or bad: it stores no  *)
(* dictionary.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

Nothing == [x \in {} |-> x]
Readable(f) == f.k # "bad"
Content(f) == IF f.k = "good" THEN f.c ELSE Nothing
If(cond, clause) == IF cond THEN {clause} ELSE {}

\* The objects which the operation is not about are as they were
Others(s, o, post) ==
    If(\E x \in DOMAIN s.objs \ {o} :
         x \notin DOMAIN post.objs \/ post.objs[x] # s.objs[x], "D01.others")

\* A new object o, or an old one which is read again
\* (remote: a file which cannot be reached is an error)
LoadBad(s, o, remote, st, post) ==
    (IF Readable(s.file) /\ ~(remote /\ s.file.k = "absent")
     THEN If(st # "ok", "D01.unreadable")
          \cup If(st = "ok" /\ (o \notin DOMAIN post.objs \/
                                post.objs[o] # Content(s.file)), "D01.loaded")
     ELSE If(st # "ipkg", "D01.invalid"))
    \cup If(post.file # s.file, "D01.read_changes")
    \cup Others(s, o, post)

\* o is saved; fit: its content can be stored
SaveBad(s, o, fit, st, post) ==
    (IF fit
     THEN If(st # "ok", "D01.save_failed")
          \cup If(~Readable(post.file) \/ Content(post.file) # s.objs[o],
                  "D01.saved")
     ELSE If(st = "ok", "D02.unnoticed")
          \cup If(post.file # s.file, "D02.lost"))
    \cup If(o \notin DOMAIN post.objs \/ post.objs[o] # s.objs[o], "D01.object")
    \cup Others(s, o, post)

\* o is emptied
ClearBad(s, o, st, post) ==
    If(st # "ok", "D01.clear_failed")
    \cup If(o \notin DOMAIN post.objs \/ post.objs[o] # Nothing, "D01.clear_object")
    \cup If(~Readable(post.file) \/ Content(post.file) # Nothing, "D01.clear_file")
    \cup Others(s, o, post)

\* f is the file found if the process dies while o is saved, or found after
\* the saving has failed (over)
PointBad(s, o, f, over, st) ==
    IF f = s.file THEN If(over /\ st = "ok" /\ (~Readable(f) \/ Content(f) # s.objs[o]),
                          "D02.reported")
    ELSE If(~Readable(f), "D02.torn")
         \cup If(Readable(f) /\ Content(f) \notin {Content(s.file), s.objs[o]},
                 "D02.mixed")
         \cup If(over /\ st # "ok" /\ f # s.file, "D02.unreported")
=============================================================================
