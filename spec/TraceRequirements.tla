------------------------- MODULE TraceRequirements -------------------------
(***************************************************************************)
(* Requirements parsed, merged, compared and matched by the real code.     *)
(***************************************************************************)
EXTENDS Requirements, ReqText, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Truth(b) == IF b THEN "true" ELSE "false"
If(cond, clause) == IF cond THEN {clause} ELSE {}

\* e.sat[i]: did the requirement accept package e.pk[i]?
SatBad(r, e, clause) ==
    {clause : i \in {i \in 1..Len(e.pk) : e.sat[i] # Truth(Sat(r, e.pk[i]))}}
\* Which of the accepted or refused packages shows a platform problem?
PlatBad(r, e, clause) ==
    {clause : i \in {i \in 1..Len(e.pk) :
        /\ r.n = e.pk[i].n /\ VersionSat(r.s, e.pk[i].v)
        /\ e.sat[i] # Truth(Sat(r, e.pk[i]))}}

ParseBad(e) ==
    IF Exclusive(e.r.s) THEN If(e.st # "ipkg", "R01.exclusive")
    ELSE IF e.st # "ok" THEN {"R01.rejected", "R04.rejected"}
    ELSE SatBad(e.r, e, "R01.sat") \cup PlatBad(e.r, e, "R03.requirement")
         \cup If(e.name # e.r.n, "R04.name")
         \cup If(e.extras # e.r.x, "R04.extras")
         \cup If(e.plat # e.r.p, "R03.prefix")

RECURSIVE MergeAll(_, _), Fails(_, _)
MergeAll(rs, r) == IF rs = <<>> THEN r ELSE MergeAll(Tail(rs), Merge(r, Head(rs)))
Fails(rs, r) == IF rs = <<>> THEN FALSE
                ELSE ~Mergeable(r, Head(rs)) \/ Fails(Tail(rs), Merge(r, Head(rs)))
MergeBad(e) ==
    LET fails == Fails(Tail(e.rs), Head(e.rs))
        m == MergeAll(Tail(e.rs), Head(e.rs))
    IN  IF fails THEN If(e.st # "ipkg", "R02.accepted")
        ELSE IF e.st # "ok" THEN {"R02.rejected"}
        ELSE SatBad(m, e, "R02.sat")
             \cup If(e.name # m.n, "R02.name")
             \cup If(Range(e.extras) # Range(m.x), "R02.extras")
             \cup If(e.plat # m.p, "R02.platform")

\* Two requirements (or a requirement and a text)
Different(a, b, pk) ==
    \/ a.n # b.n \/ a.p # b.p \/ Range(a.x) # Range(b.x)
    \/ \E i \in 1..Len(pk) : VersionSat(a.s, pk[i].v) # VersionSat(b.s, pk[i].v)
EqBad(e) ==
    IF Demands(e.a) = Demands(e.b)
    THEN If(e.eq # "true", "R04.equal") \cup If(e.ne # "false", "R04.not_unequal")
         \cup If(e.hash # "true", "R04.hash")
    ELSE IF Different(e.a, e.b, e.pk)
    THEN If(e.eq # "false", "R04.different") \cup If(e.ne # "true", "R04.unequal")
    ELSE {}
NotReqBad(e) == If(e.eq # "false", "R04.no_requirement")
                \cup If(e.ne # "true", "R04.no_requirement_ne")

TextBad(e) ==
    LET p == Parsed(e.chars)
        sels == [i \in 1..Len(p.sels) |->
                   [o |-> OpOf(p.sels[i].o), v |-> Tokens(p.sels[i].v)]]
        numeric == \A i \in 1..Len(p.sels) : Numeric(p.sels[i].v)
    IN  IF e.st \notin {"ok", "ipkg"} THEN {"R04.fails"}
        ELSE IF ~p.ok THEN If(e.st # "ipkg", "R04.not_rejected")
        ELSE IF numeric
             THEN IF Exclusive(sels) THEN If(e.st # "ipkg", "R04.contradiction")
                  ELSE IF e.st # "ok" THEN {"R04.not_accepted"}
                  ELSE If(e.name # p.name, "R04.text_name")
                       \cup If(e.extras # p.extras, "R04.text_extras")
             ELSE If(e.st = "ok" /\ (e.name # p.name \/ e.extras # p.extras),
                     "R04.text_name")

\* Platforms a and b, as objects or texts
PlatEqBad(e) ==
    LET m == PlatMatch(e.a, e.b)
    IN  If(e.eq # Truth(m), "R03.eq") \cup If(e.ne # Truth(~m), "R03.ne")
        \cup If(e.rev # Truth(m), "R03.symmetry")
PlatParseBad(e) ==
    IF e.valid
    THEN If(e.st # "ok", "R03.parse") \cup
         (IF e.st = "ok" THEN If(e.got # e.a, "R03.parsed")
                              \cup If(e.again # e.a, "R03.roundtrip")
          ELSE {})
    ELSE If(e.st # "ipkg", "R03.invalid") \cup If(e.eq # "false", "R03.invalid_eq")

\* The platform of the machine; low: the name of its distribution in lower
\* case
CurrentBad(e) ==
    LET name == IF e.system = "Linux" THEN e.low ELSE "osx" IN
    IF e.system \notin {"Linux", "Darwin"}
    THEN If(e.st # "ipkg", "R03.current_unknown")
    ELSE If(e.st # "ok" \/ e.got # <<name, e.release, e.machine>>,
            "R03.current")
         \cup If(~e.itself, "R03.current_text")

Bad(e) == CASE e.ev = "parse"  -> ParseBad(e)
            [] e.ev = "merge"  -> MergeBad(e)
            [] e.ev = "eq"     -> EqBad(e)
            [] e.ev = "notreq" -> NotReqBad(e)
            [] e.ev = "text"   -> TextBad(e)
            [] e.ev = "plateq" -> PlatEqBad(e)
            [] e.ev = "plat"   -> PlatParseBad(e)
            [] e.ev = "current" -> CurrentBad(e)
            [] OTHER -> {"hang"}

VARIABLES l, bad
INSTANCE TraceLoop
=============================================================================
