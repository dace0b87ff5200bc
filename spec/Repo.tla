-------------------------------- MODULE Repo --------------------------------
(***************************************************************************)
(* Package repositories and their index.                                   *)
(*                                                                         *)
(* c is a sequence of contents [n, f, ok]: the package file with name f    *)
(* which belongs to package name n, and whether it can be read.            *)
(* The state is                                                            *)
(*   disk     function: name of a package file -> its content              *)
(*   live     the index of the repository object, and                      *)
(*   stored   the one on disk: sequences of [n, i], an entry of content i  *)
(*            (its metadata and checksum; 0: of none) listed below name n  *)
(***************************************************************************)
EXTENDS Requirements, TLC

If(cond, clause) == IF cond THEN {clause} ELSE {}
FN(c, i) == c[i].f

\* The entries of an index, the order left out: each exactly once
Lists(c, ix, S) == /\ Len(ix) = Cardinality(S)
                   /\ Range(ix) = {[n |-> c[i].n, i |-> i] : i \in S}
Same(ix, jx) == Len(ix) = Len(jx) /\ \A e \in Range(ix) \cup Range(jx) :
                   Cardinality({k \in 1..Len(ix) : ix[k] = e}) =
                   Cardinality({k \in 1..Len(jx) : jx[k] = e})
Good(c, disk) == {disk[f] : f \in {f \in DOMAIN disk : disk[f] # 0 /\ c[disk[f]].ok}}
Drop(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
\* The contents listed, an entry with the file name of i replaced
Added(c, ix, i) == {e.i : e \in {e \in Range(ix) : e.i # 0 /\ FN(c, e.i) # FN(c, i)}}
                   \cup {i}

(* Clauses an operation breaks *)
UpdateBad(c, pre, st, post) ==
    LET new == Good(c, pre.disk)
        all == \A f \in DOMAIN pre.disk : pre.disk[f] # 0 /\ c[pre.disk[f]].ok
    IN  If(st \notin {"ok", "ipkg"} \/ (all /\ st # "ok"), "P02.update_fails")
        \cup If(st = "ok" /\ ~Lists(c, post.live, new), "P02.update_live")
        \cup If(st = "ok" /\ ~Lists(c, post.stored, new), "P02.update_stored")
        \cup If(st # "ok" /\ ~Same(post.stored, pre.stored) /\
                ~Lists(c, post.stored, new), "P04.update_failed")
        \cup If(post.disk # pre.disk, "P02.update_files")
AddBad(c, pre, i, st, post) ==
    IF c[i].ok
    THEN If(st # "ok", "P02.add_fails")
         \cup If(st = "ok" /\ ~Lists(c, post.live, Added(c, pre.live, i)),
                 "P02.add_live")
         \cup If(~Same(post.stored, pre.stored) /\
                 ~Lists(c, post.stored, Added(c, pre.live, i)), "P04.add_stored")
         \cup If(post.disk # pre.disk, "P02.add_files")
    ELSE If(st # "ipkg" \/ ~Same(post.live, pre.live), "P02.add_unreadable")
         \cup If(~Same(post.stored, pre.stored), "P04.add_stored")
         \cup If(post.disk # pre.disk, "P02.add_files")
\* What is no package at all is refused
RefuseBad(pre, st, post) ==
    If(st # "ipkg" \/ ~Same(post.live, pre.live), "P02.add_refused")
    \cup If(~Same(post.stored, pre.stored), "P04.add_stored")
    \cup If(post.disk # pre.disk, "P02.add_files")
SaveBad(pre, st, post) ==
    If(st # "ok" \/ ~Same(post.live, pre.live) \/ ~Same(post.stored, pre.live),
       "P02.save")
    \cup If(post.disk # pre.disk, "P02.save_files")
\* A formula which builds adds content i; one which fails, nothing
BuildBad(c, pre, fails, i, st, post) ==
    IF fails
    THEN If(st # "ipkg", "B03.build_fails")
         \cup If(~Same(post.live, pre.live) \/ ~Same(post.stored, pre.stored)
                 \/ post.disk # pre.disk, "B03.indexed")
    ELSE If(st # "ok" \/ i = 0, "P02.build_fails")
         \cup (IF st # "ok" \/ i = 0 THEN {} ELSE
               If(~Lists(c, post.live, Added(c, pre.live, i)), "P02.build_live")
               \cup If(~Lists(c, post.stored, Added(c, pre.live, i)),
                       "P02.build_stored")
               \cup If(post.disk # (FN(c, i) :> i) @@ pre.disk, "P02.build_files"))
ReopenBad(pre, st, post) ==
    If(st # "ok" \/ ~Same(post.live, pre.stored) \/ ~Same(post.stored, pre.stored)
       \/ post.disk # pre.disk, "P02.reopen")
\* Found and installable: contents which are both listed and on disk
FoundBad(c, s, found) ==
    If(\E i \in Good(c, s.disk) \cap {e.i : e \in Range(s.live)} :
          i \notin Range(found), "P02.found")

\* The process dies during an operation: what the stored index may be
PointBad(c, pre, op, i, opened, stored) ==
    IF ~opened THEN {"P04.unreadable"}
    ELSE If(~Same(stored, pre.stored) /\
            ~(\/ op = "update" /\ Lists(c, stored, Good(c, pre.disk))
              \/ op = "save" /\ Same(stored, pre.live)
              \/ op \in {"add", "build"} /\ i # 0
                   /\ Lists(c, stored, Added(c, pre.live, i))
              \/ op = "build" /\ Same(stored, pre.live)), "P04.lost")

(***************************************************************************)
(* Looking up.  A repository has the packages pk, each [n, v, r, p]; R is  *)
(* the sequence of indexes which a lookup gives.                           *)
(***************************************************************************)
Matching(pk, r) == {i \in 1..Len(pk) : Sat(r, pk[i])}
Newer(pk, i, j) == VRLess(pk[j].v, pk[j].r, pk[i].v, pk[i].r)
FindBad(pk, r, st, R) ==
    IF st # "ok" THEN {"P01.fails"}
    ELSE If(Range(R) # Matching(pk, r) \/ Len(R) # Cardinality(Range(R)),
            "P01.exactly")
         \cup If(\E a, b \in 1..Len(R) : a < b /\ R[a] # 0 /\ R[b] # 0 /\
                    Newer(pk, R[b], R[a]), "P01.order")
FirstBad(pk, r, st, R) ==
    LET M == Matching(pk, r) IN
    IF M = {} THEN If(st # "ipkg", "P01.none")
    ELSE If(st # "ok" \/ Len(R) # 1 \/ R[1] \notin M \/
            \E j \in M : Newer(pk, j, R[1]), "P01.first")
IterBad(pk, st, R) ==
    If(st # "ok" \/ Len(R) # Len(pk) \/ Range(R) # 1..Len(pk), "P01.iterate")
=============================================================================
