----------------------------- MODULE TraceFetch -----------------------------
(***************************************************************************)
(* Histories of files opened and read through the real code, while the     *)
(* server and the cache change.  The state is the one Fetch predicts.      *)
(* "point": a new process reads file u, with the cache as it is found if   *)
(* the process dies during the next operation; then reads it again.        *)
(***************************************************************************)
EXTENDS Fetch, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Nothing == [x \in {} |-> 0]
Content(e) == [seed |-> e.seed, len |-> e.len]

Complete(e, c) == /\ e.got = c.len
                  /\ e.head = Bytes(c, 0, Min(c.len, 16))
                  /\ e.tail = Bytes(c, c.len - Min(c.len, 16), Min(c.len, 16))
                  /\ (c.len > 32 => c.seed \in {e.within[i] : i \in DOMAIN e.within})
PointBad(s, e) ==
    LET known == {s.srv[e.u].c} \cup (IF e.u \in DOMAIN s.cached THEN {s.cached[e.u]} ELSE {})
    IN  If(e.st = "ok" /\ \A c \in known : ~Complete(e, c), "F03.damaged")
        \cup If(e.st # "ok", "F03.unreadable")
        \cup If(e.again # "ok", "F03.again")

Bad(s, e) ==
    CASE e.ev \in {"hang", "died"} -> {"hang"}
      [] e.ev \in {"init", "srv", "cache"} -> {}
      [] e.ev = "open" -> OpenBad(e.loc, e)
      [] e.ev = "read" -> ReadBad(s, e.o, e)
      [] e.ev = "tell" -> TellBad(s, e.o, e)
      [] e.ev = "seek" -> SeekBad(s, e.o, e)
      [] e.ev = "verify" -> VerifyBad(s, e.o, e.d, e)
      [] e.ev = "fopen" ->
            IF ~Openable(e.loc) THEN OpenBad(e.loc, e)
            ELSE VerifyBad([s EXCEPT !.objs = Set(@, e.o, Opened(e.loc))], e.o, e.d, e)
      [] e.ev = "point" -> PointBad(s, e)

Move(s, n, pos) == [s EXCEPT !.objs[n].pos = pos]
Use(s, e) ==
    LET t == Loaded(s, e.o)
        o == t.objs[e.o]
    IN  CASE e.ev = "read" /\ Ready(o) -> Move(t, e.o, o.pos + Count(o, e.n))
          [] e.ev = "seek" /\ Ready(o) ->
                [t EXCEPT !.objs[e.o] = Moved(o, e.off, e.wh)]
          [] OTHER -> t
After(s, e) ==
    CASE e.ev \in {"hang", "died", "point"} -> s
      [] e.ev = "init" -> [srv |-> e.srv, on |-> "no", cached |-> Nothing, objs |-> Nothing]
      [] e.ev = "srv" -> [s EXCEPT !.srv[e.u] = [ok |-> e.ok, c |-> Content(e)]]
      [] e.ev = "cache" -> [s EXCEPT !.on = e.on]
      [] e.ev = "open" -> IF e.st = "ok" THEN [s EXCEPT !.objs = Set(@, e.o, Opened(e.loc))]
                          ELSE s
      \* the checksum may be checked now, or when the file is used
      [] e.ev = "verify" -> IF e.d.variant = "none" THEN s ELSE Loaded(s, e.o)
      [] e.ev = "fopen" ->
            LET t == [s EXCEPT !.objs = Set(@, e.o, Opened(e.loc))]
                u == IF e.d.variant = "none" THEN t ELSE Loaded(t, e.o)
            IN  IF ~Openable(e.loc) THEN s
                ELSE IF e.st = "ok" THEN u
                ELSE [u EXCEPT !.objs = s.objs]
      [] OTHER -> Use(s, e)
Initial == Nothing

VARIABLES l, bad, cur
INSTANCE TraceState
=============================================================================
