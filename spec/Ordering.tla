------------------------------ MODULE Ordering ------------------------------
(***************************************************************************)
(* How packages, formulas and package specifications compare (V01), and    *)
(* what sorting and most_recent return (V02).                              *)
(*                                                                         *)
(* A package is [n, v, r]: name, version (tokens), revision (a number).    *)
(* A specification "name[==version[:revision]]" is [n, v, r, hasv, hasr];  *)
(* anything else is [bad |-> TRUE].                                        *)
(***************************************************************************)
EXTENDS Versions, FiniteSets

Ops == {"lt", "eq", "gt", "le", "ge", "ne"}

PkgLess(x, y) == x.n = y.n /\ VRLess(x.v, x.r, y.v, y.r)
PkgEq(x, y)   == x.n = y.n /\ VREq(x.v, x.r, y.v, y.r)

PkgOp(op, x, y) ==
    CASE op = "lt" -> PkgLess(x, y)
      [] op = "gt" -> PkgLess(y, x)
      [] op = "eq" -> PkgEq(x, y)
      [] op = "ne" -> ~PkgEq(x, y)
      [] op = "le" -> PkgLess(x, y) \/ PkgEq(x, y)
      [] op = "ge" -> PkgLess(y, x) \/ PkgEq(x, y)

\* Equality ignores what the specification leaves out ...
SpecEq(x, s) == /\ x.n = s.n
                /\ s.hasv => VEq(x.v, s.v)
                /\ s.hasr => x.r = s.r
\* ... and ordering needs what decides it
SpecLess(x, s) == /\ x.n = s.n
                  /\ s.hasv
                  /\ \/ VLess(x.v, s.v)
                     \/ VEq(x.v, s.v) /\ s.hasr /\ x.r < s.r
SpecMore(x, s) == /\ x.n = s.n
                  /\ s.hasv
                  /\ \/ VLess(s.v, x.v)
                     \/ VEq(x.v, s.v) /\ s.hasr /\ s.r < x.r

SpecOp(op, x, s) ==
    CASE op = "lt" -> SpecLess(x, s)
      [] op = "gt" -> SpecMore(x, s)
      [] op = "eq" -> SpecEq(x, s)
      [] op = "ne" -> ~SpecEq(x, s)
      [] op = "le" -> SpecLess(x, s) \/ SpecEq(x, s)
      [] op = "ge" -> SpecMore(x, s) \/ SpecEq(x, s)

\* Neither a package nor a text: never equal, never ordered
OtherOp(op) == op = "ne"

\* out sorts in (sequences of [k, ...] where k are keys, compared with Leq)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
IsPermutation(a, b) ==
    /\ Len(a) = Len(b)
    /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
Ascending(s, Leq(_, _))  == \A i \in 1..(Len(s) - 1) : Leq(s[i], s[i + 1])
Descending(s, Leq(_, _)) == \A i \in 1..(Len(s) - 1) : Leq(s[i + 1], s[i])
=============================================================================
