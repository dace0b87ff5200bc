------------------------------ MODULE Versions ------------------------------
(***************************************************************************)
(* Versions, as the users of ipkg understand them.                         *)
(*                                                                         *)
(* A version is a sequence of tokens: numbers (>= 0) and tags (< 0).       *)
(* "1.0" is <<1, 0>>, "1.2a3" is <<1, 2, Alpha, 3>>, "1.0-2" (a patch      *)
(* level) is <<1, 0, Patch, 2>>.  Numeric parts compare as numbers,        *)
(* pre-releases come before the release, a patch level after it, and       *)
(* trailing zeros are ignored.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences

Dev   == -50
Alpha == -40
Beta  == -30
RC    == -20
Final == -10     \* the end of every version
Patch == -5

RECURSIVE DropTail(_, _)
DropTail(s, x) ==
    IF s # <<>> /\ s[Len(s)] = x THEN DropTail(SubSeq(s, 1, Len(s) - 1), x)
                                 ELSE s

RECURSIVE Norm(_, _)
Norm(tokens, done) ==
    IF tokens = <<>> THEN done
    ELSE LET t == Head(tokens)
             d == IF t < Final THEN DropTail(done, Patch) ELSE done
             e == IF t < 0 THEN DropTail(d, 0) ELSE d
         IN  Norm(Tail(tokens), Append(e, t))

\* What decides the order of a version
Key(v) == Norm(Append(v, Final), <<>>)

RECURSIVE LexLess(_, _)
LexLess(a, b) ==
    IF b = <<>> THEN FALSE
    ELSE IF a = <<>> THEN TRUE
    ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
    ELSE LexLess(Tail(a), Tail(b))

VLess(a, b)  == LexLess(Key(a), Key(b))
VEq(a, b)    == Key(a) = Key(b)
VLeq(a, b)   == VLess(a, b) \/ VEq(a, b)

\* Version and revision of a package, compared
VRLess(v1, r1, v2, r2) == VLess(v1, v2) \/ (VEq(v1, v2) /\ r1 < r2)
VREq(v1, r1, v2, r2)   == VEq(v1, v2) /\ r1 = r2
VRLeq(v1, r1, v2, r2)  == VRLess(v1, r1, v2, r2) \/ VREq(v1, r1, v2, r2)
=============================================================================
