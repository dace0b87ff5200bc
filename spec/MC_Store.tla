------------------------------ MODULE MC_Store ------------------------------
(***************************************************************************)
(* Two objects stored in one file, which others write too.  Saving takes   *)
(* steps: a new file is written, piece after piece, then takes the place   *)
(* of the other one; the process may die, or a step fail, at any time.     *)
(* With Direct, the file itself is written instead: Kept must fail then    *)
(* (this model is not blind).                                              *)
(***************************************************************************)
EXTENDS Store, Json

CONSTANTS Emit, Direct
Objects == {"o", "p"}
Values == {1, 2}
Contents == {Nothing} \cup {"k" :> v : v \in Values}
                      \cup {("k" :> v) @@ ("m" :> w) : v \in Values, w \in {1}}
Good(c) == [k |-> "good", c |-> c]
Kind(k) == [k |-> k, c |-> Nothing]
Unfit == 9          \* a value which cannot be stored

VARIABLES file, temp, objs, pc, who, pre, last
vars == <<file, temp, objs, pc, who, pre, last>>
View == <<file, temp, objs, pc, who>>
S == [file |-> file, objs |-> objs]
Fit(o) == \A x \in DOMAIN objs[o] : objs[o][x] # Unfit

Init == /\ file = Kind("absent") /\ temp = Kind("absent")
        /\ objs = [x \in {} |-> Nothing] /\ pc = "idle" /\ who = ""
        /\ pre = S /\ last = [op |-> "init"]
Idle == pc = "idle"
Begin(op) == pre' = S /\ last' = op
Set(f, x, v) == (x :> v) @@ f

Load(o, op) ==
    /\ Idle /\ op = (IF o \in DOMAIN objs THEN "reload" ELSE "new")
    /\ Begin([op |-> op, o |-> o, st |-> IF Readable(file) THEN "ok" ELSE "ipkg"])
    /\ objs' = IF Readable(file) THEN Set(objs, o, Content(file)) ELSE objs
    /\ UNCHANGED <<file, temp, pc, who>>
Put(o, x, v) ==
    /\ Idle /\ o \in DOMAIN objs
    /\ Begin([op |-> "set", o |-> o, x |-> x, v |-> v])
    /\ objs' = [objs EXCEPT ![o] = Set(@, x, v)]
    /\ UNCHANGED <<file, temp, pc, who>>
Remove(o, x) ==
    /\ Idle /\ o \in DOMAIN objs /\ x \in DOMAIN objs[o]
    /\ Begin([op |-> "del", o |-> o, x |-> x])
    /\ objs' = [objs EXCEPT ![o] = [y \in DOMAIN @ \ {x} |-> @[y]]]
    /\ UNCHANGED <<file, temp, pc, who>>
Clear(o) ==
    /\ Idle /\ o \in DOMAIN objs
    /\ Begin([op |-> "clear", o |-> o, st |-> "ok"])
    /\ objs' = [objs EXCEPT ![o] = Nothing] /\ file' = Kind("absent")
    /\ UNCHANGED <<temp, pc, who>>
Other(f) ==
    /\ Idle /\ f # file
    /\ Begin([op |-> "write", f |-> f])
    /\ file' = f /\ UNCHANGED <<temp, objs, pc, who>>

\* Saving
Save(o) == /\ Idle /\ o \in DOMAIN objs
           /\ Begin([op |-> "save", o |-> o, st |-> IF Fit(o) THEN "ok" ELSE "other"])
           /\ pc' = "open" /\ who' = o /\ UNCHANGED <<file, temp, objs>>
Written(f) == IF Direct THEN file' = f /\ UNCHANGED temp
              ELSE temp' = f /\ UNCHANGED file
Open == pc = "open" /\ Written(Kind("empty")) /\ pc' = "part"
        /\ UNCHANGED <<objs, who, pre, last>>
Part == pc = "part" /\ Written(Kind("bad"))
        /\ pc' = (IF Fit(who) THEN "all" ELSE "idle")
        /\ UNCHANGED <<objs, who, pre, last>>
All == pc = "all" /\ Written(Good(objs[who])) /\ pc' = "rename"
       /\ UNCHANGED <<objs, who, pre, last>>
Rename == /\ pc = "rename" /\ pc' = "idle"
          /\ IF Direct THEN UNCHANGED <<file, temp>>
             ELSE file' = temp /\ temp' = Kind("absent")
          /\ UNCHANGED <<objs, who, pre, last>>
\* Any step may fail, and the process die
Fail == /\ ~Idle /\ pc' = "idle"
        /\ last' = [op |-> "failed", o |-> who, st |-> "other"] /\ pre' = pre
        /\ UNCHANGED <<file, temp, objs, who>>
Die == /\ ~Idle /\ pc' = "idle" /\ objs' = [x \in {} |-> Nothing]
       /\ last' = [op |-> "died", o |-> who, st |-> "other"] /\ pre' = pre
       /\ UNCHANGED <<file, temp, who>>

Next == \/ \E o \in Objects :
             \/ Load(o, "new") \/ Load(o, "reload") \/ Clear(o) \/ Save(o)
             \/ \E v \in Values \cup {Unfit} : Put(o, "k", v)
             \/ Put(o, "m", 1)
             \/ \E x \in {"k", "m"} : Remove(o, x)
        \/ \E f \in {Good(c) : c \in Contents} \cup {Kind("bad"), Kind("empty"),
                                                    Kind("absent")} : Other(f)
        \/ Open \/ Part \/ All \/ Rename \/ Fail \/ Die

Bad == IF ~Idle' THEN {} ELSE
    LET post == [file |-> file', objs |-> objs']
        e == last'
    IN  CASE e.op \in {"new", "reload"} -> LoadBad(pre', e.o, FALSE, e.st, post)
          [] e.op = "clear" -> ClearBad(pre', e.o, e.st, post)
          [] e.op = "save" -> SaveBad(pre', e.o, e.st = "ok", e.st, post)
          [] e.op \in {"failed", "died"} ->
               PointBad(pre', e.o, file', e.op = "failed", "other")
          [] OTHER -> {}
Right == [][Bad = {}]_vars
Kept == ~Idle => PointBad(pre, who, file, FALSE, "") = {}

Over == Idle' /\ last'.op \notin {"died"}
Printed == \/ ~Emit \/ ~Over
           \/ PrintT(ToJson([s |-> pre', t |-> [file |-> file', objs |-> objs'],
                             o |-> last']))
=============================================================================
