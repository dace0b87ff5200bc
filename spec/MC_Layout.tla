------------------------------ MODULE MC_Layout ------------------------------
(***************************************************************************)
(* An environment whose directories are made and emptied, in steps which   *)
(* may be the last ones, with things of the user around.                   *)
(***************************************************************************)
EXTENDS Layout, Json

Pre == "w/env"
\* parents come first: the order of making
Order == <<"", "/bin", "/include", "/lib", "/lib/pkgconfig", "/sbin", "/share",
           "/share/man", "/tmp">>
Parent == [p \in {Pre \o Order[i] : i \in 1..Len(Order)} |->
             IF p = Pre THEN "w" ELSE
             IF p = Pre \o "/lib/pkgconfig" THEN Pre \o "/lib" ELSE
             IF p = Pre \o "/share/man" THEN Pre \o "/share" ELSE Pre]
\* What the user does: a path, its parent, what it is made of
Mine == {<<Pre \o "/bin", Pre, "f">>, <<Pre \o "/tmp", Pre, "f">>,
         <<Pre \o "/bin/x", Pre \o "/bin", "f">>,
         <<Pre \o "/tmp/x", Pre \o "/tmp", "f">>,
         <<Pre \o "/tmp/l", Pre \o "/tmp", "l:../bin">>,
         <<Pre \o "/tmp/d", Pre \o "/tmp", "d">>,
         <<Pre \o "/tmp/d/y", Pre \o "/tmp/d", "f">>,
         <<Pre, "w", "d">>, <<Pre, "w", "f">>}
Temp == Pre \o "/tmp/t"
Inside == {m[1] : m \in {m \in Mine : m[2] \in {Pre \o "/tmp", Pre \o "/tmp/d"}}}
          \cup {Temp}

VARIABLES tree, pc, tol, pre, last
vars == <<tree, pc, tol, pre, last>>
View == <<tree, pc, tol>>
S == [tree |-> tree, pre |-> Pre]
Set(p, x) == tree' = (p :> x) @@ tree
Init == /\ tree = ("w" :> "d") /\ pc = 0 /\ tol = FALSE
        /\ pre = S /\ last = [op |-> "init"]
Idle == pc = 0
Here(p) == p \in DOMAIN tree

User == /\ Idle
        /\ \E m \in Mine : /\ m[2] \in DOMAIN tree /\ tree[m[2]] = "d"
                           /\ ~Here(m[1]) /\ Set(m[1], m[3])
                           /\ last' = [op |-> "user", p |-> m[1], x |-> m[3]]
        /\ pre' = S /\ UNCHANGED <<pc, tol>>
Leaf(p) == /\ \A m \in Mine : m[2] = p => ~Here(m[1])
           /\ ~ (p = Pre \o "/tmp" /\ Here(Temp))
           /\ \A q \in DOMAIN Parent : Parent[q] = p => ~Here(q)
Undo == /\ Idle
        /\ \E p \in DOMAIN tree \ {"w"} :
             /\ Leaf(p) /\ tree' = [q \in DOMAIN tree \ {p} |-> tree[q]]
             /\ last' = [op |-> "gone", p |-> p]
        /\ pre' = S /\ UNCHANGED <<pc, tol>>

Create == /\ Idle /\ pc' = 1 /\ \E b \in BOOLEAN : tol' = b
          /\ pre' = S /\ last' = [op |-> "create", tol |-> tol', st |-> "ok"]
          /\ UNCHANGED tree
Make == /\ pc \in 1..Len(Order)
        /\ LET p == Pre \o Order[pc] IN
           IF Here(p)
           THEN /\ UNCHANGED tree
                /\ IF tol /\ tree[p] = "d"
                   THEN pc' = (pc + 1) % (Len(Order) + 1) /\ UNCHANGED last
                   ELSE pc' = 0 /\ last' = [last EXCEPT !.st = "ipkg"]
           ELSE Set(p, "d") /\ pc' = (pc + 1) % (Len(Order) + 1) /\ UNCHANGED last
        /\ UNCHANGED <<tol, pre>>
Temporary == /\ Idle /\ Here(Pre \o "/tmp") /\ tree[Pre \o "/tmp"] = "d"
             /\ ~Here(Temp)
             /\ Set(Temp, "d") /\ last' = [op |-> "temp", st |-> "ok"]
             /\ pre' = S /\ UNCHANGED <<pc, tol>>
Clean == /\ Idle /\ Here(Pre \o "/tmp") /\ tree[Pre \o "/tmp"] = "d"
         /\ pc' = 20 /\ pre' = S /\ last' = [op |-> "clean", st |-> "ok"]
         /\ UNCHANGED <<tree, tol>>
Doomed == (Inside \cup {Pre \o "/tmp"}) \cap DOMAIN tree
Sweep == /\ pc = 20
         /\ IF Doomed = {} THEN Set(Pre \o "/tmp", "d") /\ pc' = 0
            ELSE \E p \in {p \in Doomed : \A m \in Mine : m[2] = p => ~Here(m[1])} :
                   /\ p = Pre \o "/tmp" => Doomed = {p}
                   /\ tree' = [q \in DOMAIN tree \ {p} |-> tree[q]] /\ pc' = 20
         /\ UNCHANGED <<tol, pre, last>>
Die == /\ ~Idle /\ pc' = 0 /\ last' = [op |-> "died", of |-> last.op]
       /\ UNCHANGED <<tree, tol, pre>>
Next == User \/ Undo \/ Create \/ Make \/ Temporary \/ Clean \/ Sweep \/ Die

Bad == IF pc' # 0 THEN {} ELSE
    LET post == [tree |-> tree', pre |-> Pre]
        s == pre'
        e == last'
    IN  CASE e.op = "create" -> CreateBad(s, TRUE, e.tol, e.st, post)
          [] e.op = "temp" -> TempBad(s, "ok", Temp, TRUE, TRUE, TRUE, post)
          [] e.op = "clean" -> CleanBad(s, Inside, e.st, post)
          [] e.op = "died" -> IF e.of = "clean" THEN CleanDies(s, Inside, post)
                              ELSE CreateDies(s, post)
          [] OTHER -> {}
Right == [][Bad = {}]_vars
\* A creation which died can be completed
Completed == \A p \in {Pre \o o : o \in {Order[i] : i \in 1..Len(Order)}} :
                Here(p) /\ p # Pre => Here(Parent[p])
Over == pc' = 0 /\ last'.op # "died"
Printed == ~Over \/ PrintT(ToJson([s |-> pre'.tree, t |-> tree', o |-> last']))
=============================================================================
