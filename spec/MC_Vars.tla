------------------------------- MODULE MC_Vars -------------------------------
(***************************************************************************)
(* Environments entered from one another, and lists of entries, over all   *)
(* small inherited lists and sequences of operations.                      *)
(***************************************************************************)
EXTENDS Vars

CONSTANTS Depth, Width
Prefixes == {"/e", "/f"}
Entries == {"/u", "/e/bin", "/e/sbin", "/f/bin", "/e/lib"}
VARIABLES lists, before, last, n, s, op, prev
vars == <<lists, before, last, n, s, op, prev>>

Inherited == UNION {[1..k -> Entries] : k \in 0..Width}
Init == /\ \E p, q \in Inherited : lists = [PATH |-> p, LD_LIBRARY_PATH |-> q]
        /\ before = lists /\ last = "" /\ n = 0
        /\ s = lists.PATH /\ op = <<"none">> /\ prev = s
Go == /\ n < Depth /\ n' = n + 1
      /\ \E p \in Prefixes : /\ lists' = Enter(p, lists) /\ last' = p
      /\ before' = lists /\ UNCHANGED <<s, op, prev>>
Edit == /\ n < Depth /\ n' = n + 1
        /\ prev' = s /\ UNCHANGED <<lists, before, last>>
        /\ \E x \in {"/u", "/e/bin"} :
             \/ \E i \in -2..2 : s' = Insert(s, x, i) /\ op' = <<"insert", x, i>>
             \/ s' = Append1(s, x) /\ op' = <<"append", x>>
             \/ s' = Without(s, x) /\ op' = <<"remove", x>>
\* the two do not interfere
Next == IF op[1] = "none" /\ last = "" THEN Go \/ Edit
        ELSE IF last # "" THEN Go ELSE Edit

\* Entering an environment puts its directories first, once, and keeps the rest
EnterRight == last = "" \/
    \A name \in Lists : ListRight(last, name, before, lists[name])
Times(t, x) == Cardinality({i \in DOMAIN t : t[i] = x})
EditRight == op[1] = "none" \/
    /\ Times(s, op[2]) = IF op[1] = "remove" THEN 0 ELSE 1
    /\ Without(s, op[2]) = Without(prev, op[2])
    /\ op[1] = "append" => s[Len(s)] = op[2]
    /\ op[1] = "insert" /\ op[3] = 0 => s[1] = op[2]
=============================================================================
