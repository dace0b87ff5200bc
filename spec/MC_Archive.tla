----------------------------- MODULE MC_Archive -----------------------------
(***************************************************************************)
(* All small archives are unpacked as the implementation does: their       *)
(* members are listed, then extracted one after the other.                 *)
(***************************************************************************)
EXTENDS Archive, Json

CONSTANTS Size, Emit
R == "r"
Member(p, k, m, c, t) == [path |-> p, k |-> k, mode |-> m, c |-> c, to |-> t]
Members ==
    {Member(p, "d", "755", "", <<>>) : p \in {<<R>>, <<R, "a">>, <<".">>, <<"s">>}}
    \cup {Member(p, "f", m, c, <<>>) : p \in {<<R, "a">>, <<R, "a", "b">>, <<".", R, "b">>},
                                       m \in {"644"}, c \in {"1", "2"}}
    \cup {Member(<<"s", "x">>, "f", "600", "3", <<>>), Member(<<R>>, "f", "600", "3", <<>>),
          Member(<<R, "a">>, "l", "777", "b", <<>>), Member(<<R, "l">>, "l", "777", "../x", <<>>),
          Member(<<R, "h">>, "h", "644", "", <<R, "a">>),
          Member(<<R, "h">>, "h", "644", "", <<R, "b">>)}
\* What was there
Old == [path |-> <<"o">>, k |-> "f", mode |-> "644", c |-> "0"]

VARIABLES a, pc, i, fs, st
vars == <<a, pc, i, fs, st>>
Init == /\ \E n \in 0..Size : a \in [1..n -> Members]
        /\ WellFormed(a)
        /\ pc = "list" /\ i = 1 /\ fs = {Old} /\ st = ""

At(p) == {x \in fs : x.path = p}
Listing == /\ pc = "list" /\ UNCHANGED <<a, i, fs>>
           /\ IF OneRoot(a) THEN pc' = "extract" /\ st' = st
              ELSE pc' = "done" /\ st' = "ipkg"
\* Missing directories are made, a file takes the place of a file
Extract ==
    /\ pc = "extract" /\ i <= Len(a) /\ UNCHANGED <<a, pc, st>> /\ i' = i + 1
    /\ LET m == a[i]
           p == Clean(m.path)
           dirs == {[path |-> q, k |-> "d", mode |-> "any", c |-> ""] :
                    q \in {q \in Prefixes(p) : At(q) = {}}}
           item == IF m.k # "h" THEN [path |-> p, k |-> m.k, mode |-> m.mode, c |-> m.c]
                   ELSE [(CHOOSE x \in At(Clean(m.to)) : TRUE) EXCEPT !.path = p]
       IN  fs' = IF p = <<>> THEN fs ELSE (fs \ At(p)) \cup dirs \cup {item}
Finish == pc = "extract" /\ i > Len(a) /\ pc' = "done" /\ st' = "ok"
          /\ UNCHANGED <<a, i, fs>>
Next == Listing \/ Extract \/ Finish

\* (the specification is about sequences of items)
Items == LET RECURSIVE L(_)
             L(S) == IF S = {} THEN <<>>
                     ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o L(S \ {x})
         IN  L(fs)
Right == pc = "done" =>
    UnpackBad([a |-> a, format |-> "tar.gz", whole |-> "yes", st |-> st,
               old |-> <<Old>>, items |-> Items,
               returned |-> IF st = "ok" THEN <<RootOf(a)>> ELSE <<>>]) = {}
Printed == ~Emit \/ pc # "list" \/ PrintT(ToJson([a |-> a]))
=============================================================================
