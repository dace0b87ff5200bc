------------------------------- MODULE Fetch --------------------------------
(***************************************************************************)
(* Files opened by location, what servers have, and the cache.             *)
(*                                                                         *)
(* A content is [seed |-> s, len |-> n]: its byte at offset i is           *)
(* Byte(s, i).  A state has                                                *)
(*   srv     url -> [ok |-> BOOLEAN, c |-> content]                        *)
(*   on      "yes", "no", or "readonly": nothing can be stored             *)
(*   cached  url -> content                                                *)
(*   objs    name -> [kind, u, c, loaded, pos, sure]: open files; where a   *)
(*           file is is not sure once it was moved out of its content      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Byte(s, i) == ((i % 251) + ((i \div 251) * 3) + (s * 17)) % 256
Bytes(c, a, n) == [i \in 1..n |-> Byte(c.seed, a + i - 1)]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
If(cond, clause) == IF cond THEN {clause} ELSE {}
Set(f, x, v) == (x :> v) @@ f

\* Reading n bytes (all if negative), and moving
Available(o) == Max(0, o.c.len - o.pos)
Count(o, n) == IF n < 0 THEN Available(o) ELSE Min(n, Available(o))
Target(o, off, wh) == (CASE wh = 0 -> 0 [] wh = 1 -> o.pos [] wh = 2 -> o.c.len) + off

(***************************************************************************)
(* Remote files are loaded when they are first used.  Load(s, o) is what   *)
(* using o makes of it: whether its content is there afterwards, which     *)
(* one, and whether the server is asked.                                   *)
(***************************************************************************)
Ready(o) == o.loaded \/ o.kind # "http"
Hit(s, u) == s.on # "no" /\ u \in DOMAIN s.cached
Load(s, o) ==
    IF Ready(o) THEN [ok |-> TRUE, c |-> o.c, req |-> 0, store |-> FALSE]
    ELSE IF Hit(s, o.u)
    THEN [ok |-> TRUE, c |-> s.cached[o.u], req |-> 0, store |-> FALSE]
    ELSE [ok |-> s.srv[o.u].ok, c |-> s.srv[o.u].c, req |-> 1,
          store |-> s.srv[o.u].ok /\ s.on = "yes"]
\* The state once the object called n is loaded
Loaded(s, n) ==
    LET o == s.objs[n]
        l == Load(s, o)
    IN  [s EXCEPT !.objs[n] = IF l.ok THEN [o EXCEPT !.c = l.c, !.loaded = TRUE] ELSE o,
                  !.cached = IF l.store THEN Set(@, o.u, l.c) ELSE @]

(***************************************************************************)
(* What is wrong with an operation on the object called n.  e has st: ok,  *)
(* ipkg (an ipkg error) or another outcome; req: the requests the server   *)
(* got for this file, others: for other ones.                              *)
(***************************************************************************)
UseBad(s, n, e) ==
    LET o == s.objs[n]
        l == Load(s, o)
        p == IF o.kind = "http" THEN "F02." ELSE "F05."
    IN  If(l.ok /\ e.st # "ok", p \o "failed")
        \cup If(~l.ok /\ e.st = "ok", "F02.accepted")
        \cup If(~l.ok /\ e.st \notin {"ok", "ipkg"}, "F02.error")
        \cup If(IF l.ok THEN e.req # l.req ELSE e.req < 1, "F02.requests")
        \cup If(e.others # 0, "F02.others")
        \cup If(s.on # "yes" /\ e.stored # 0, "F02.stored")
        \cup If(l.ok /\ l.store /\ e.stored = 0, "F02.unstored")

ReadBad(s, n, e) ==
    LET t == Loaded(s, n)
        o == t.objs[n]
        k == Count(o, e.n)
        h == Min(k, 16)
    IN  (IF o.sure THEN UseBad(s, n, e)
         ELSE UseBad(s, n, e) \ {"F02.failed", "F05.failed"})
        \cup (IF e.st # "ok" \/ ~Ready(o) \/ ~o.sure THEN {} ELSE
              If(e.got # k \/ e.head # Bytes(o.c, o.pos, h) \/
                 e.tail # Bytes(o.c, o.pos + k - h, h) \/
                 (k > 32 /\ o.c.seed \notin {e.within[i] : i \in DOMAIN e.within}),
                 IF o.kind = "http" THEN "F02.content" ELSE "F05.content")
              \cup If(e.got # k \/ e.head # Bytes(o.c, o.pos, h), "F05.read"))
TellBad(s, n, e) ==
    UseBad(s, n, e)
    \cup If(e.st = "ok" /\ s.objs[n].sure /\ e.pos # s.objs[n].pos, "F05.tell")
\* Moving: to a place in the content, or not
Sure(o, off, wh) == /\ o.sure \/ wh # 1
                    /\ Target(o, off, wh) \in 0..o.c.len
SeekBad(s, n, e) ==
    LET t == Loaded(s, n)
    IN  IF Sure(t.objs[n], e.off, e.wh) THEN UseBad(s, n, e)
        ELSE UseBad(s, n, e) \ {"F02.failed", "F05.failed"}
Moved(o, off, wh) == [o EXCEPT !.pos = Target(o, off, wh), !.sure = Sure(o, off, wh)]

\* d: [variant |-> exact, none or anything else, seed, len]: the checksum of
\* a content, or not quite
Matches(d, c) == \/ d.variant = "none"
                 \/ d.variant = "exact" /\ d.seed = c.seed /\ d.len = c.len
\* Checking the object called n, opened with checksum d (opening: it has just
\* been opened to be used)
VerifyBad(s, n, d, e) ==
    LET o == Loaded(s, n).objs[n]
        l == Load(s, s.objs[n])
    IN  If(e.st \notin {"ok", "ipkg"}, "F01.error")
        \cup (IF d.variant = "none" /\ ~Ready(s.objs[n])
              THEN {}    \* nothing needs to be loaded
              ELSE If(e.st = "ok" /\ ~(l.ok /\ Matches(d, o.c)), "F01.accepted")
                   \cup If(e.st # "ok" /\ l.ok /\ Matches(d, o.c), "F01.refused"))

(***************************************************************************)
(* Opening.  loc: [kind |-> path, file or http; u; c (of local files);     *)
(* exists].  Another kind of location cannot be opened.                    *)
(***************************************************************************)
Opened(loc) == [kind |-> loc.kind, u |-> loc.u, c |-> loc.c, loaded |-> FALSE, pos |-> 0,
                sure |-> TRUE]
Openable(loc) == loc.kind = "http" \/ (loc.kind \in {"path", "file"} /\ loc.exists)
OpenBad(loc, e) ==
    If(Openable(loc) /\ e.st # "ok", "F05.open")
    \cup If(~Openable(loc) /\ e.st = "ok", "F05.opened")
    \cup If(e.st \notin {"ok", "ipkg"}, "F05.error")
=============================================================================
