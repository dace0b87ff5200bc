-------------------------------- MODULE Load --------------------------------
(***************************************************************************)
(* Loading formulas from files.                                            *)
(*                                                                         *)
(* A file f is [there, broken, defs, tag]: whether it exists, whether it   *)
(* imports what does not exist, its definitions in their order, and the    *)
(* value of a global variable.  A definition is [id, kind, pub, lacks]:    *)
(* a formula class, a class or a value; whether its name is public; the    *)
(* mandatory attributes which the class does not set.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

If(cond, clause) == IF cond THEN {clause} ELSE {}
Range(s) == {s[i] : i \in DOMAIN s}

Formulas(f) == {d \in Range(f.defs) : d.kind = "formula" /\ d.pub}
Loads(f) == f.there /\ ~f.broken /\ Cardinality(Formulas(f)) = 1
The(f) == CHOOSE d \in Formulas(f) : TRUE

\* Loading f gives st and the class id
LoadBad(f, st, id) ==
    IF Loads(f) THEN If(st # "ok", "B04.fails")
                     \cup If(st = "ok" /\ id # The(f).id, "B04.class")
    ELSE If(st # "ipkg", "B04.refused")
\* Attributes (as one value each) of the class given: as written
AttrBad(f, st, got) == If(Loads(f) /\ st = "ok" /\ got # The(f).attrs, "B04.attributes")
\* An instance of the class, and what its methods see of the file
NewBad(f, st) == If(Loads(f) /\ st # (IF The(f).lacks THEN "ipkg" ELSE "ok"), "B04.instance")
UseBad(f, st, id, tag) ==
    If(Loads(f) /\ (st # "ok" \/ id # The(f).id \/ tag # f.tag), "B04.changed")

(***************************************************************************)
(* A repository has the files named as formulas are; a damaged one fails   *)
(***************************************************************************)
RepoBad(fs, st, ids) ==
    IF \A i \in DOMAIN fs : Loads(fs[i])
    THEN If(st # "ok", "B04.repository_fails")
         \cup If(st = "ok" /\ (Len(ids) # Len(fs)
                 \/ Range(ids) # {The(fs[i]).id : i \in DOMAIN fs}), "B04.repository")
    ELSE If(st # "ipkg", "B04.repository_refused")
=============================================================================
