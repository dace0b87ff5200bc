------------------------------- MODULE MC_Cli -------------------------------
(***************************************************************************)
(* Every history of commands over two environments which exist or not,     *)
(* each command with every environment given and current: what the         *)
(* commands do is what Cli demands, no other environment changes, and a    *)
(* command which has none to act on fails.                                 *)
(***************************************************************************)
EXTENDS Cli, Json, IOUtils

CONSTANT Emit
Catalogs == ndJsonDeserialize(IOEnv.CATALOGS)

VARIABLES k, w, last
C == Catalogs[k]
Names2 == {"A", "B"}
Gone == [Fresh EXCEPT !.here = FALSE]

Init == /\ k \in 1..Len(Catalogs)
        /\ w = [envs |-> [n \in Names2 |-> Gone],
                repo |-> [files |-> {}, index |-> {}], out |-> {}]
        /\ last = [o |-> [cmd |-> "init"], st |-> "ok", w |-> w]

Do(o) == LET r == DoCli(C, w, o) IN
         /\ Target(o) # "" /\ o.cmd # "mkenv" => w.envs[Target(o)].here
         /\ w' = r.w
         /\ last' = [o |-> o, st |-> r.st, w |-> w]
Where(cmd) == {[cmd |-> cmd, env |-> e, cur |-> n] :
                 e \in {"", "A", "B"}, n \in {"", "A", "B"}}
Reqs == {P(C, i).deps : i \in 1..Len(C.pkgs)} \cup {<<>>}
Next == /\ UNCHANGED k
        /\ \E e \in {"", "A", "B"}, n \in {"", "A", "B"} :
           \/ \E i \in 1..Len(C.pkgs), repo \in BOOLEAN :
                Do([cmd |-> "install", env |-> e, cur |-> n, how |-> "path",
                    i |-> i, repo |-> repo])
           \/ \E m \in {P(C, i).n : i \in 1..Len(C.pkgs)} :
                Do([cmd |-> "uninstall", env |-> e, cur |-> n, n |-> m])
           \/ /\ C.config
              /\ \E x \in {"x", "y"} :
                   Do([cmd |-> "set", env |-> e, cur |-> n, k |-> "k", v |-> x])
           \/ \E cmd \in {"list", "get"} :
                Do([cmd |-> cmd, env |-> e, cur |-> n, k |-> "k"])
           \/ \E reqs \in Reqs :
                /\ e # ""
                /\ Do([cmd |-> "mkenv", env |-> e, cur |-> n, reqs |-> reqs,
                       repo |-> TRUE, bad |-> FALSE])
View == <<k, w>>

\* What a command that prints must print, as a sequence
Some(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Range(s) = S
Printed1(s, o) == IF o.cmd = "list" THEN Some(Listed(C, s))
                  ELSE IF o.k \in DOMAIN s.cfg THEN <<s.cfg[o.k]>> ELSE <<"None">>
Event(r) == [st |-> r.st, w |-> w', dirs |-> TRUE,
             out |-> IF r.o.cmd \in {"list", "get"} /\ ~Lost(r.o)
                     THEN Printed1(w.envs[Target(r.o)], r.o) ELSE <<>>]
Right == [][CliBad(C, w, last'.o, Event(last')) = {}
            \/ ~PrintT(<<"BAD", last', CliBad(C, w, last'.o, Event(last'))>>)]_<<k, w, last>>
\* The environment given wins over the current one
Aimed == [][\A n \in Names2 : w'.envs[n] # w.envs[n] =>
               n = (IF last'.o.env # "" THEN last'.o.env ELSE last'.o.cur)]_<<k, w>>
\* A failure without dependencies changes nothing
Refused == [][last'.st # "ok" /\ last'.o.cmd \notin {"install", "mkenv"}
                => w' = w]_<<k, w, last>>
\* What is said of the environments of a history is what each would be alone
Printed == \/ ~Emit
           \/ PrintT(ToJson([k |-> k, s |-> w.envs, t |-> w'.envs,
                             o |-> last'.o]))
=============================================================================
