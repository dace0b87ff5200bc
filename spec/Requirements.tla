---------------------------- MODULE Requirements ----------------------------
(***************************************************************************)
(* Requirements and platforms.                                             *)
(*                                                                         *)
(* A platform is <<os name, os release, architecture>>.                    *)
(* A requirement is [n, p, x, s]: package name, platform, sequence of      *)
(* extras and sequence of selectors [o, v] (operator, version tokens).     *)
(* A package is [n, p, v].                                                 *)
(***************************************************************************)
EXTENDS Versions, FiniteSets

Range(s) == {s[i] : i \in 1..Len(s)}

(* Platforms: compared component by component, "any" is a wildcard *)
AnyPlatform == <<"any", "any", "any">>
PlatMatch(a, b) == \A i \in 1..3 : a[i] = "any" \/ b[i] = "any" \/ a[i] = b[i]
PlatMeet(a, b)  == [i \in 1..3 |-> IF a[i] = "any" THEN b[i] ELSE a[i]]

(* Selectors *)
SelSat(s, v) ==
    CASE s.o = "==" -> VEq(v, s.v)
      [] s.o = "!=" -> ~VEq(v, s.v)
      [] s.o = "<"  -> VLess(v, s.v)
      [] s.o = "<=" -> VLeq(v, s.v)
      [] s.o = ">"  -> VLess(s.v, v)
      [] s.o = ">=" -> VLeq(s.v, v)
VersionSat(sels, v) == \A s \in Range(sels) : SelSat(s, v)

Lower(sels) == {s \in Range(sels) : s.o \in {">", ">="}}
Upper(sels) == {s \in Range(sels) : s.o \in {"<", "<="}}
Equal(sels) == {s \in Range(sels) : s.o = "=="}

\* The equalities and bounds contradict one another
Exclusive(sels) ==
    \/ \E a, b \in Equal(sels) : ~VEq(a.v, b.v)
    \/ \E a \in Equal(sels), b \in Lower(sels) \cup Upper(sels) :
          ~SelSat(b, a.v)
    \/ \E a \in Lower(sels), b \in Upper(sels) :
          \/ VLess(b.v, a.v)
          \/ VEq(a.v, b.v) /\ (a.o = ">" \/ b.o = "<")

(* What a requirement accepts *)
Sat(r, pkg) == r.n = pkg.n /\ PlatMatch(r.p, pkg.p) /\ VersionSat(r.s, pkg.v)

(* Merging: both.  Contradiction is decided on all the selectors *)
Mergeable(a, b) == a.n = b.n /\ PlatMatch(a.p, b.p) /\ ~Exclusive(a.s \o b.s)
Merge(a, b) == [n |-> a.n, p |-> PlatMeet(a.p, b.p), x |-> a.x \o b.x,
                s |-> a.s \o b.s]

(* The demands of a requirement, whatever their order and spelling *)
Demands(r) == [n |-> r.n, p |-> r.p, x |-> Range(r.x),
               s |-> {<<t.o, Key(t.v)>> : t \in Range(r.s)}]

(***************************************************************************)
(* The normal form the implementation keeps: at most one lower and one     *)
(* upper bound, or one equality, and the inequalities.                     *)
(***************************************************************************)
Best(S, Better(_, _)) ==
    IF S = {} THEN {}
    ELSE {CHOOSE a \in S : \A b \in S : ~Better(b, a)}
LowerBetter(a, b) == VLess(b.v, a.v) \/ (VEq(a.v, b.v) /\ a.o = ">" /\ b.o = ">=")
UpperBetter(a, b) == VLess(a.v, b.v) \/ (VEq(a.v, b.v) /\ a.o = "<" /\ b.o = "<=")
NormalForm(sels) ==
    LET lo == Best(Lower(sels), LowerBetter)
        up == Best(Upper(sels), UpperBetter)
        point == {[o |-> "==", v |-> l.v] : l \in
                    {l \in lo : \E u \in up : VEq(l.v, u.v)}}
        eqs == {[o |-> "==", v |-> e.v] : e \in Equal(sels)} \cup point
        eq == IF eqs = {} THEN {} ELSE {CHOOSE e \in eqs : TRUE}
        ne == {s \in Range(sels) : s.o = "!="}
    IN  IF eq # {} THEN eq \cup ne ELSE lo \cup up \cup ne
NormalSat(S, v) == \A s \in S : SelSat(s, v)
=============================================================================
