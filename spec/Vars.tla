-------------------------------- MODULE Vars --------------------------------
(***************************************************************************)
(* Environment variables of an environment, and lists of entries.          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(f) == {f[x] : x \in DOMAIN f}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
\* Placing x at an index, counted from 0, or from the end if it is negative
Index(s, i) == IF i >= 0 THEN IF i > Len(s) THEN Len(s) ELSE i
               ELSE IF Len(s) + i < 0 THEN 0 ELSE Len(s) + i
Insert(s, x, i) ==
    LET r == Without(s, x)
        k == Index(r, i)
    IN  SubSeq(r, 1, k) \o <<x>> \o SubSeq(r, k + 1, Len(r))
Append1(s, x) == Append(Without(s, x), x)

\* The directories an environment places first in each search path
Own(prefix) ==
    [PATH |-> {prefix \o "/bin", prefix \o "/sbin"},
     MANPATH |-> {prefix \o "/share/man"},
     PKG_CONFIG_PATH |-> {prefix \o "/lib/pkgconfig"},
     C_INCLUDE_PATH |-> {prefix \o "/include"},
     LD_LIBRARY_PATH |-> {prefix \o "/lib"}]
Lists == {"PATH", "MANPATH", "PKG_CONFIG_PATH", "C_INCLUDE_PATH",
          "LD_LIBRARY_PATH"}
Special == {"IPKG_ENVIRONMENT", "TMPDIR", "PS1", "HOME"}
At(f, x, default) == IF x \in DOMAIN f THEN f[x] ELSE default

\* A search path with the directories of an environment before its entries
First(own, inherited, got) ==
    LET n == Cardinality(own) IN
    /\ Len(got) >= n
    /\ Range(SubSeq(got, 1, n)) = own
    /\ SubSeq(got, n + 1, Len(got)) =
         SelectSeq(inherited, LAMBDA x : x \notin own)
\* What may follow if nothing is inherited
Default(name) == IF name = "MANPATH" THEN {<<>>, <<"/usr/share/man">>} ELSE {<<>>}
ListRight(prefix, name, lists, got) ==
    IF name \in DOMAIN lists
    THEN First(Own(prefix)[name], lists[name], got)
    ELSE \E d \in Default(name) : First(Own(prefix)[name], d, got)

\* The variables of an environment: the way the implementation makes them
Enter(prefix, lists) ==
    [name \in Lists |->
        LET inherited == At(lists, name, IF name = "MANPATH"
                                         THEN <<"/usr/share/man">> ELSE <<>>) IN
        IF name = "PATH"
        THEN Insert(Insert(inherited, prefix \o "/bin", 0), prefix \o "/sbin", 0)
        ELSE Insert(inherited, CHOOSE d \in Own(prefix)[name] : TRUE, 0)]
=============================================================================
