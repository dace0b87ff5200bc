----------------------------- MODULE MC_PkgSpec -----------------------------
(***************************************************************************)
(* Every text of a few characters, and every specification made of parts:  *)
(* reading what is made gives the parts, and only what can be made is read.*)
(***************************************************************************)
EXTENDS PkgSpec, TLC, Json

CONSTANT Max
Alphabet == {"a", "1", ".", "=", ":", "-", " "}
Texts(C, n) == UNION {[1..k -> C] : k \in 0..n}
Name == Texts({"a", "1", "-", "_"}, 2) \ {None}
Version == Texts({"a", "1", ".", "-"}, 2)
Revision == Texts({"a", "1", "_"}, 2)
VARIABLE x
Init == \/ \E t \in Texts(Alphabet, Max) : x = [k |-> "text", t |-> t]
        \/ \E n \in Name, v \in Version, r \in Revision :
             x = [k |-> "parts", n |-> n, v |-> v, r |-> r]
Next == UNCHANGED x
RoundTrip == x.k = "parts" =>
    LET p == Read(Made(x.n, x.v, x.r)) IN
    p.ok /\ p.n = x.n /\ p.v = x.v /\ (x.v # None => p.r = x.r)
OnlyMade == x.k = "text" =>
    LET p == Read(x.t) IN p.ok => Made(p.n, p.v, p.r) = x.t
Printed == x.k # "text" \/ PrintT(ToJson([t |-> x.t]))
=============================================================================
