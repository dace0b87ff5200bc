-------------------------- MODULE MC_Requirements --------------------------
(***************************************************************************)
(* All pairs of sequences of up to two selectors and all platforms of a    *)
(* small universe: rejection, merging and the normal form agree with what  *)
(* the selectors mean.                                                     *)
(***************************************************************************)
EXTENDS Requirements, TLC

Vs     == {<<1>>, <<2>>, <<3>>}
\* versions between, below and above them
Probes == {<<0>>, <<1>>, <<1, 5>>, <<2>>, <<2, 5>>, <<3>>, <<4>>}
Sels   == [o : {"==", "!=", "<", "<=", ">", ">="}, v : Vs]
Seqs(n) == UNION {[1..k -> Sels] : k \in 0..n}
Comp == {"any", "x", "y"}
CONSTANT Depth \* length of the left operand of merges
Plats == Comp \X {"any", "z"} \X {"any", "w"}

VARIABLES kind, a, b, c
vars == <<kind, a, b, c>>
Init == \/ kind = "sels" /\ a \in Seqs(Depth) /\ b \in Seqs(2) /\ c = <<>>
        \/ kind = "one" /\ a \in Seqs(3) /\ b = <<>> /\ c = <<>>
        \/ kind = "plat" /\ a \in Plats /\ b \in Plats /\ c \in Plats
Next == UNCHANGED vars

NoNe(sels) == SelectSeq(sels, LAMBDA s : s.o # "!=")
\* Rejected requirements are exactly those nothing can satisfy
ExclusiveIsEmpty ==
    kind \in {"sels", "one"} =>
    LET s == a \o b IN
    Exclusive(s) <=> \A v \in Probes : ~VersionSat(NoNe(s), v)
MergeMeansBoth ==
    kind = "sels" =>
    LET ra == [n |-> "p", p |-> AnyPlatform, x |-> <<>>, s |-> a]
        rb == [n |-> "p", p |-> AnyPlatform, x |-> <<>>, s |-> b] IN
    /\ Mergeable(ra, rb) <=> Mergeable(rb, ra)
    /\ Exclusive(a) => ~Mergeable(ra, rb)
    /\ \A v \in Probes : VersionSat(Merge(ra, rb).s, v)
                         <=> VersionSat(a, v) /\ VersionSat(b, v)
    /\ Demands(Merge(ra, rb)) = Demands(Merge(rb, ra))
NormalFormIsEquivalent ==
    kind \in {"sels", "one"} =>
    LET s == a \o b IN
    ~Exclusive(s) => \A v \in Probes :
        NormalSat(NormalForm(s), v) <=> VersionSat(s, v)
PlatformLattice ==
    kind = "plat" =>
    /\ PlatMatch(a, b) <=> PlatMatch(b, a)
    /\ PlatMatch(a, a) /\ PlatMatch(a, AnyPlatform)
    /\ PlatMatch(a, b) =>
         /\ PlatMeet(a, b) = PlatMeet(b, a)
         \* a concrete platform matches the meet iff it matches both
         /\ ("any" \notin {c[1], c[2], c[3]}) =>
              (PlatMatch(PlatMeet(a, b), c) <=> PlatMatch(a, c) /\ PlatMatch(b, c))
    /\ (PlatMatch(a, b) /\ PlatMatch(PlatMeet(a, b), c)) <=>
       (PlatMatch(b, c) /\ PlatMatch(a, PlatMeet(b, c)))
=============================================================================
