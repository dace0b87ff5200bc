------------------------------ MODULE MC_Crash ------------------------------
(***************************************************************************)
(* Installations and removals one file-system step at a time, dying        *)
(* anywhere, with histories which go on from what was left.                *)
(***************************************************************************)
EXTENDS Env, Json, IOUtils

Catalogs == ndJsonDeserialize(IOEnv.CATALOGS)
CONSTANT Deaths   \* how many times the process may die in a history

VARIABLES k, s, todo, op, pre, post, dead
vars == <<k, s, todo, op, pre, post, dead>>
C == Catalogs[k]
Empty == [x \in {} |-> 0]
Nothing == [op |-> "none", i |-> 0, repo |-> FALSE, n |-> ""]

Init == /\ k \in 1..Len(Catalogs)
        /\ s = [rec |-> Empty, files |-> Empty, cfg |-> Empty]
        /\ todo = <<>> /\ op = Nothing /\ pre = s /\ post = s /\ dead = 0

Result(t, o) ==
    IF o.op = "install" THEN DoInstall(C, t, o.i, o.repo, {})
    ELSE IF o.n \in DOMAIN t.rec
    THEN [st |-> "ok", s |-> DoUninstall(C, t, o.n)]
    ELSE [st |-> "ipkg", s |-> t]
Begin(o, steps) ==
    /\ todo = <<>> /\ steps # <<>>
    /\ op' = o /\ pre' = s /\ post' = Result(s, o).s /\ todo' = steps
    /\ UNCHANGED <<s, dead>>
Operations ==
    \/ \E i \in 1..Len(C.pkgs) :
         Begin([op |-> "install", i |-> i, repo |-> TRUE, n |-> ""],
               Steps(C, s, i, TRUE, {}))
    \/ \E n \in DOMAIN s.rec :
         Begin([op |-> "uninstall", i |-> 0, repo |-> FALSE, n |-> n],
               Removal(C, s.rec[n]))
Step ==
    /\ todo # <<>>
    /\ s' = Apply1(s, Head(todo)) /\ todo' = Tail(todo)
    /\ IF Len(todo) = 1 THEN op' = Nothing /\ pre' = s' /\ post' = s'
       ELSE UNCHANGED <<op, pre, post>>
    /\ UNCHANGED dead
Die ==
    /\ todo # <<>> /\ dead < Deaths /\ dead' = dead + 1
    /\ todo' = <<>> /\ op' = Nothing /\ pre' = s /\ post' = s /\ UNCHANGED s
Next == (Operations \/ Step \/ Die) /\ UNCHANGED k

Clear == op.op # "none" /\
         (op.op = "install" => Consistent(C, Needed(C, pre, op.i, TRUE)))
May == IF op.op = "install" THEN Needed(C, pre, op.i, TRUE) ELSE {}
\* The last step of an operation reaches the result it is defined to have
StepsRight == [][Len(todo) = 1 /\ todo' = <<>> /\ dead' = dead => s' = post]_vars
PointRight == Clear => PointBad(C, pre, post, May, s) = {}
RedoneRight == Clear /\ Result(pre, op).st = "ok" =>
                  RedoneBad(C, pre, post, Result(s, op).s) = {}
=============================================================================
