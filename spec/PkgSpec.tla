------------------------------ MODULE PkgSpec ------------------------------
(***************************************************************************)
(* Package specifications, character by character:                         *)
(*                                                                         *)
(*   name ["==" version [":" revision]]                                    *)
(*                                                                         *)
(* Texts are sequences of one-character strings.                           *)
(***************************************************************************)
EXTENDS ReqText

WordCh == Digit \cup Letter \cup {"_"}
None == <<>>

\* [ok, n, v, r]: the text read as a specification; v, r: None if left out
Read(t) ==
    LET nlen == Span(t, NameCh, 0)
        eqs  == Len(t) >= nlen + 2 /\ t[nlen + 1] = "=" /\ t[nlen + 2] = "="
        rest == From(t, nlen + 3)
        vlen == Span(rest, VerCh, 0)
        rev  == Len(rest) > vlen
    IN  [ok |-> /\ nlen > 0
                /\ Len(t) > nlen => /\ eqs /\ vlen > 0
                                    /\ rev => /\ rest[vlen + 1] = ":"
                                              /\ Len(rest) > vlen + 1
                                              /\ All(From(rest, vlen + 2), WordCh),
         n |-> SubSeq(t, 1, nlen),
         v |-> IF eqs THEN SubSeq(rest, 1, vlen) ELSE None,
         r |-> IF eqs /\ rev THEN From(rest, vlen + 2) ELSE None]

\* The specification of a package
Made(n, v, r) == n \o (IF v = None THEN <<>>
                       ELSE <<"=", "=">> \o v
                            \o (IF r = None THEN <<>> ELSE <<":">> \o r))
\* What it has to be made of
Named(p) == p.n # None
If(cond, clause) == IF cond THEN {clause} ELSE {}

ReadBad(t, st, n, v, r) ==
    LET p == Read(t) IN
    IF ~p.ok THEN If(st # "ipkg", "V03.accepted")
    ELSE If(st # "ok", "V03.refused")
         \cup If(st = "ok" /\ <<n, v, r>> # <<p.n, p.v, p.r>>, "V03.parts")
MadeBad(p, st, t) ==
    IF ~Named(p) THEN If(st # "ipkg", "V03.nameless")
    ELSE If(st # "ok" \/ t # Made(p.n, p.v, p.r), "V03.made")
=============================================================================
