---------------------------- MODULE MC_Ordering ----------------------------
(***************************************************************************)
(* Every triple of a small universe of versions and packages: the order    *)
(* is total, transitive and consistent, and it means what users expect.    *)
(***************************************************************************)
EXTENDS Ordering, TLC

Nums == {0, 1, 2, 10}
Short == {<<a>> : a \in Nums} \cup {<<a, b>> : a \in {0, 1}, b \in Nums}
Tagged == {<<1, t, n>> : t \in {Dev, Alpha, Beta, RC, Patch}, n \in {1, 2}}
          \cup {<<1, 0, t, n>> : t \in {Alpha, Patch}, n \in {0, 1}}
          \cup {<<1, 0, 0>>, <<1, Alpha>>, <<1, Patch, 1, Alpha, 1>>}
Universe == Short \cup Tagged
Few == {<<0>>, <<1>>, <<1, 0>>, <<1, Alpha, 1>>, <<1, Patch, 1>>, <<2>>, <<10>>}
Pkgs == [n : {"a", "b"}, v : Few, r : {1, 9, 10}]

VARIABLE t
Init == t \in ({"v"} \X Universe \X Universe \X Universe)
              \cup ({"p"} \X Pkgs \X Pkgs \X {CHOOSE p \in Pkgs : TRUE})
Next == UNCHANGED t

TotalOrder ==
    t[1] = "v" =>
    LET a == t[2] b == t[3] c == t[4] IN
    /\ Cardinality({x \in {"<", "=", ">"} :
          CASE x = "<" -> VLess(a, b) [] x = "=" -> VEq(a, b)
            [] x = ">" -> VLess(b, a)}) = 1
    /\ (VLess(a, b) /\ VLess(b, c)) => VLess(a, c)
    /\ (VEq(a, b) /\ VLess(b, c)) => VLess(a, c)
    /\ VEq(a, Append(a, 0)) \/ a[Len(a)] < 0
    /\ VLess(a, Append(a, 1)) \/ a[Len(a)] < 0
    /\ VLess(a \o <<Alpha, 1>>, a) \/ Patch \in {a[i] : i \in 1..Len(a)}
    /\ VLess(a, a \o <<Patch, 1>>)
Trichotomy ==
    t[1] = "p" =>
    LET x == t[2] y == t[3]
        R == {op \in {"lt", "eq", "gt"} : PkgOp(op, x, y)} IN
    /\ Cardinality(R) = IF x.n = y.n THEN 1 ELSE 0
    /\ PkgOp("le", x, y) <=> (R \cap {"lt", "eq"} # {})
    /\ PkgOp("ge", x, y) <=> (R \cap {"gt", "eq"} # {})
    /\ PkgOp("ne", x, y) <=> ~("eq" \in R)
    /\ PkgOp("lt", x, y) <=> PkgOp("gt", y, x)
    /\ \A op \in Ops :     \* a full specification decides like the package
          SpecOp(op, x, [n |-> y.n, v |-> y.v, r |-> y.r,
                         hasv |-> TRUE, hasr |-> TRUE]) = PkgOp(op, x, y)
=============================================================================
