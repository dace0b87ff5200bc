------------------------------ MODULE MC_Fetch ------------------------------
(***************************************************************************)
(* Processes downloading two files through a shared cache, step by step:   *)
(* looking in the cache, asking the server, receiving, writing a new file  *)
(* in pieces, and giving it its name.  A process may die anywhere, and the *)
(* server change or fail at any time.                                      *)
(***************************************************************************)
EXTENDS Fetch, Json

CONSTANTS Urls, Emit,     \* print the transitions of a single process
          Procs,
          Direct      \* write the entry of the cache itself: must fail
C(i) == [seed |-> i, len |-> i + 1]
None == [seed |-> 0, len |-> 0]
Half == [seed |-> 9, len |-> 0]      \* a part of a content

VARIABLES srv, on, cached,
          objs,      \* process -> the file it has open
          pc, got,   \* where it is, what it has received
          temp,      \* what it is writing
          pre, last
vars == <<srv, on, cached, objs, pc, got, temp, pre, last>>
View == <<srv, on, cached, objs, pc, got, temp>>
S == [srv |-> srv, on |-> on, cached |-> cached, objs |-> objs]
Down == [ok |-> FALSE, c |-> None]
Up(i) == [ok |-> TRUE, c |-> C(i)]

Init == /\ srv = [u \in Urls |-> Down] /\ on = "no"
        /\ cached = [x \in {} |-> None] /\ objs = [x \in {} |-> None]
        /\ pc = [p \in Procs |-> "idle"] /\ got = [p \in Procs |-> None]
        /\ temp = [p \in Procs |-> None]
        /\ pre = S /\ last = [op |-> "init"]
Quiet == Procs # {"p"} \/ pc["p"] = "idle"
Step(p, from, to) == pc[p] = from /\ pc' = [pc EXCEPT ![p] = to]

Serve(u) == /\ Quiet /\ \E x \in {Down, Up(1), Up(2)} \ {srv[u]} :
                 /\ srv' = [srv EXCEPT ![u] = x]
                 /\ last' = [op |-> "srv", u |-> u, ok |-> x.ok, seed |-> x.c.seed,
                             len |-> x.c.len]
            /\ pre' = S /\ UNCHANGED <<on, cached, objs, pc, got, temp>>
Switch(x) == /\ Quiet /\ on # x /\ on' = x
             /\ pre' = S /\ last' = [op |-> "cache", on |-> x]
             /\ UNCHANGED <<srv, cached, objs, pc, got, temp>>
Open(p, u) == /\ Step(p, "idle", "idle")
              /\ objs' = Set(objs, p, Opened([kind |-> "http", u |-> u, c |-> None]))
              /\ pre' = S /\ last' = [op |-> "open", o |-> p, u |-> u]
              /\ UNCHANGED <<srv, on, cached, got, temp>>
Have(p, c) == objs' = [objs EXCEPT ![p].c = c, ![p].loaded = TRUE]
Use(p) == /\ pc[p] = "idle" /\ p \in DOMAIN objs
          /\ pre' = S
          /\ UNCHANGED <<srv, on, cached, got, temp>>
          /\ IF Ready(objs[p]) THEN UNCHANGED <<objs, pc>>
             ELSE IF Hit(S, objs[p].u)
             THEN Have(p, cached[objs[p].u]) /\ UNCHANGED pc
             ELSE pc' = [pc EXCEPT ![p] = "ask"] /\ UNCHANGED objs
          /\ last' = [op |-> "use", o |-> p, st |-> "ok", req |-> 0, store |-> FALSE]
Ask(p) == /\ pc[p] = "ask" /\ UNCHANGED <<srv, on, cached, objs, temp, pre>>
          /\ IF srv[objs[p].u].ok
             THEN /\ got' = [got EXCEPT ![p] = srv[objs[p].u].c]
                  /\ pc' = [pc EXCEPT ![p] = IF on = "yes" THEN "part" ELSE "keep"]
                  /\ last' = [last EXCEPT !.req = 1]
             ELSE /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED got
                  /\ last' = [last EXCEPT !.req = 1, !.st = "ipkg"]
\* The connection is lost
Cut(p) == /\ pc[p] \in {"part", "keep"} /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ last' = [last EXCEPT !.op = "cut"]
          /\ UNCHANGED <<srv, on, cached, objs, got, temp, pre>>
Write(p, c) == IF Direct THEN cached' = Set(cached, objs[p].u, c) /\ UNCHANGED temp
               ELSE temp' = [temp EXCEPT ![p] = c] /\ UNCHANGED cached
Part(p) == /\ Step(p, "part", "all") /\ Write(p, Half)
           /\ UNCHANGED <<srv, on, objs, got, pre, last>>
All(p) == /\ Step(p, "all", "rename") /\ Write(p, got[p])
          /\ UNCHANGED <<srv, on, objs, got, pre, last>>
Rename(p) == /\ Step(p, "rename", "keep")
             /\ IF Direct THEN UNCHANGED cached
                ELSE cached' = Set(cached, objs[p].u, temp[p])
             /\ last' = [last EXCEPT !.store = TRUE]
             /\ UNCHANGED <<srv, on, objs, got, temp, pre>>
Keep(p) == /\ Step(p, "keep", "idle") /\ Have(p, got[p])
           /\ UNCHANGED <<srv, on, cached, got, temp, pre, last>>
Die(p) == /\ pc[p] # "idle" /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ objs' = [x \in DOMAIN objs \ {p} |-> objs[x]]
          /\ pre' = S /\ last' = [op |-> "died"]
          /\ UNCHANGED <<srv, on, cached, got, temp>>
Next == \/ \E u \in Urls : Serve(u) \/ \E p \in Procs : Open(p, u)
        \/ Switch("yes") \/ Switch("no")
        \/ \E p \in Procs : \/ Use(p) \/ Ask(p) \/ Part(p) \/ All(p) \/ Rename(p)
                            \/ Keep(p) \/ Cut(p) \/ Die(p)

\* Entries of the cache are complete, and something the server has had
Complete == \A u \in DOMAIN cached : cached[u] \in {C(1), C(2)}
Whole == \A p \in DOMAIN objs : objs[p].loaded => objs[p].c \in {C(1), C(2)}
\* Alone, a process gets what Load says
Over(p) == pc'[p] = "idle" /\ last'.op = "use" /\
           (pc[p] # "idle" \/ last'.req = 0)
AsLoad == /\ UseBad(pre', "p", [st |-> last'.st, req |-> last'.req, others |-> 0,
                                 stored |-> IF last'.store THEN 1 ELSE 0]) = {}
          /\ last'.st = "ok" => objs' = Loaded(pre', "p").objs
                               /\ cached' = Loaded(pre', "p").cached
Right == [][Procs # {"p"} \/ ~Over("p") \/ AsLoad]_vars
\* (those of one process, once they are over)
Done == Procs = {"p"} /\ pc'["p"] = "idle" /\ last'.op \notin {"died", "cut"}
Printed == \/ ~Emit \/ ~Done
           \/ PrintT(ToJson([s |-> pre', t |-> [srv |-> srv', on |-> on',
                                               cached |-> cached', objs |-> objs'],
                             o |-> last']))
\* Reading piece after piece yields the content
ASSUME \A len \in 0..4, a \in 0..5, b \in 0..5 :
    LET o == [c |-> [seed |-> 1, len |-> len], pos |-> 0]
        k == Count(o, a)
        o2 == [o EXCEPT !.pos = k]
        o3 == [o EXCEPT !.pos = k + Count(o2, b)]
    IN  Bytes(o.c, 0, k) \o Bytes(o.c, k, Count(o2, b))
          \o Bytes(o.c, o3.pos, Count(o3, -1)) = Bytes(o.c, 0, len)
=============================================================================
