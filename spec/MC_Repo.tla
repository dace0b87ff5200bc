------------------------------ MODULE MC_Repo ------------------------------
(***************************************************************************)
(* A small repository, its index being rebuilt, added to and saved in the  *)
(* steps the implementation takes, the process dying between any two of    *)
(* them.  C: two contents of one file, another version, another package,   *)
(* and one which cannot be read; those Used.  With Emit, the operations are printed,*)
(* to be replayed on the code.                                             *)
(***************************************************************************)
EXTENDS Repo, Json

CONSTANTS Emit, Used
C == << [n |-> "a", f |-> "a/a1", ok |-> TRUE], [n |-> "a", f |-> "a/a1", ok |-> TRUE],
        [n |-> "a", f |-> "a/a2", ok |-> TRUE], [n |-> "b", f |-> "b/b1", ok |-> TRUE],
        [n |-> "b", f |-> "b/b2", ok |-> FALSE] >>
Sets == SUBSET (1..Len(C))
Seq1(S) == LET RECURSIVE L(_)
               L(T) == IF T = {} THEN <<>>
                       ELSE LET i == CHOOSE i \in T : \A j \in T : i <= j
                            IN  <<[n |-> C[i].n, i |-> i]>> \o L(T \ {i})
           IN  L(S)

VARIABLES disk,      \* file -> content
          live,      \* sets of contents
          stored,
          new,       \* what the file being written has: {} or a set of sets
          pc,        \* what is going on
          todo,      \* files the rebuilding has still to read
          pre, last
vars == <<disk, live, stored, new, pc, todo, pre, last>>
View == <<disk, live, stored, new, pc, todo>>
S == [disk |-> disk, live |-> Seq1(live), stored |-> Seq1(stored)]

Init == /\ disk = [x \in {} |-> 0] /\ live = {} /\ stored = {} /\ new = {}
        /\ pc = "idle" /\ todo = {} /\ last = [op |-> "init"]
        /\ pre = [disk |-> disk, live |-> <<>>, stored |-> <<>>]

AddTo(ix, i) == {j \in ix : C[j].f # C[i].f} \cup {i}
Begin(op, i) == /\ pre' = S /\ last' = [op |-> op, i |-> i, st |-> "ok"]
Idle == pc = "idle"

Put(i) == /\ Idle /\ Begin("put", i)
          /\ disk' = (C[i].f :> i) @@ disk
          /\ UNCHANGED <<live, stored, new, pc, todo>>
Remove(f) == /\ Idle /\ f \in DOMAIN disk /\ Begin("drop", disk[f])
             /\ disk' = Drop(disk, {f})
             /\ UNCHANGED <<live, stored, new, pc, todo>>
AddOp(f) == /\ Idle /\ f \in DOMAIN disk
            /\ pre' = S
            /\ last' = [op |-> "add", i |-> disk[f],
                        st |-> IF C[disk[f]].ok THEN "ok" ELSE "ipkg"]
            /\ live' = IF C[disk[f]].ok THEN AddTo(live, disk[f]) ELSE live
            /\ UNCHANGED <<disk, stored, new, pc, todo>>
SaveOp == /\ Idle /\ Begin("save", 0) /\ pc' = "write"
          /\ UNCHANGED <<disk, live, stored, new, todo>>
UpdateOp == /\ Idle /\ Begin("update", 0)
            /\ pc' = "read" /\ live' = {} /\ todo' = DOMAIN disk
            /\ UNCHANGED <<disk, stored, new>>
Reopen == /\ Idle /\ Begin("reopen", 0) /\ live' = stored
          /\ UNCHANGED <<disk, stored, new, pc, todo>>
\* Steps
Read(f) == /\ pc = "read" /\ f \in todo
           /\ IF C[disk[f]].ok
              THEN /\ live' = AddTo(live, disk[f]) /\ todo' = todo \ {f}
                   /\ UNCHANGED <<pc, last>>
              ELSE /\ pc' = "idle" /\ todo' = {} /\ UNCHANGED live
                   /\ last' = [last EXCEPT !.st = "ipkg"]
           /\ UNCHANGED <<disk, stored, new, pre>>
ReadAll == /\ pc = "read" /\ todo = {} /\ pc' = "write"
           /\ UNCHANGED <<disk, live, stored, new, todo, pre, last>>
Write == /\ pc = "write" /\ pc' = "rename" /\ new' = {live}
         /\ UNCHANGED <<disk, live, stored, todo, pre, last>>
Rename == /\ pc = "rename" /\ pc' = "idle"
          /\ stored' = CHOOSE x \in new : TRUE
          /\ new' = {}
          /\ UNCHANGED <<disk, live, todo, pre, last>>
\* The process dies: another one opens the repository
Die == /\ ~Idle
       /\ pc' = "idle" /\ live' = stored /\ todo' = {}
       /\ pre' = S /\ last' = [op |-> "died", i |-> 0, st |-> "ok"]
       /\ UNCHANGED <<disk, stored, new>>

Next == \/ \E i \in Used : Put(i)
        \/ \E f \in {C[i].f : i \in 1..Len(C)} : Remove(f) \/ AddOp(f) \/ Read(f)
        \/ SaveOp \/ UpdateOp \/ Reopen \/ ReadAll \/ Write \/ Rename \/ Die

\* When an operation is over, it has done what Repo demands
Bad == IF ~Idle' THEN {} ELSE
    LET op == last'.op
        post == [disk |-> disk', live |-> Seq1(live'), stored |-> Seq1(stored')]
    IN  CASE op = "update" -> UpdateBad(C, pre', last'.st, post)
          [] op = "add" -> AddBad(C, pre', last'.i, last'.st, post)
          [] op = "save" -> SaveBad(pre', last'.st, post)
          [] op = "reopen" -> ReopenBad(pre', last'.st, post)
          [] OTHER -> {}
Right == [][Bad = {}]_vars
\* Whenever the process may die, what is stored is one of the two
Kept == ~Idle => PointBad(C, pre, last.op, 0, TRUE, Seq1(stored)) = {}
Once == \A i, j \in live : i # j => C[i].f # C[j].f

\* Print each operation once it is over
Now  == [rec |-> Seq1(live), files |-> Seq1(stored), d |-> disk]
Over == Idle' /\ last'.op # "died" /\ (Idle => last'.op \notin {"update", "save"})
Printed == \/ ~Emit \/ ~Over
           \/ PrintT(ToJson([s |-> [rec |-> pre'.live, files |-> pre'.stored,
                                    d |-> pre'.disk],
                             t |-> Now', o |-> last']))
=============================================================================
