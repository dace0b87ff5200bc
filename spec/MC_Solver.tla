----------------------------- MODULE MC_Solver -----------------------------
(***************************************************************************)
(* The algorithm of the solver, taking the pending requirements in every   *)
(* possible order, over generated problems: whatever the order it ends,    *)
(* and its answer is what Solver demands.                                  *)
(***************************************************************************)
EXTENDS Solver, Json, IOUtils

Problems == ndJsonDeserialize(IOEnv.PROBLEMS)

VARIABLES k, nodes, q, err
vars == <<k, nodes, q, err>>
C == Problems[k]

\* The demands of all the nodes on a name, and the nodes which meet them
Merged(N, n) == {d \in UNION {Deps(C, i) : i \in N \ (Inst(C) \ {C.target})} : d.n = n}
Satisfiers(N, n) == {i \in N : P(C, i).n = n /\
                        \A d \in Merged(N, n) : Sat(d, P(C, i))}
Contradiction(N) ==
    \E n \in {P(C, i).n : i \in 1..Len(C.pkgs)} :
       \E a, b \in Merged(N, n) : ~PlatMatch(a.p, b.p) \/
          LET S == Merged(N, n)
              sels == UNION {Range(d.s) : d \in S}
          IN  Exclusive(CHOOSE s \in [1..Cardinality(sels) -> sels] :
                           Range(s) = sels)

Init == /\ k \in 1..Len(Problems)
        /\ nodes = {C.target}
        /\ q = {<<C.target, d>> : d \in Deps(C, C.target)}
        /\ err = Contradiction({C.target})
Pop(x) ==
    LET d == x[2]
        served == Satisfiers(nodes, d.n) # {}
        new == IF served THEN {}
               ELSE IF InstFor(C, d) # {} THEN {CHOOSE i \in InstFor(C, d) : TRUE}
               ELSE RepoFor(C, d)
    IN  /\ nodes' = nodes \cup new
        /\ q' = (q \ {x}) \cup
                UNION {{<<i, e>> : e \in Deps(C, i)} :
                       i \in new \ Inst(C)}
        /\ err' = Contradiction(nodes')
Next == /\ ~err /\ \E x \in q : Pop(x)
        /\ UNCHANGED k

RECURSIVE BestDeps(_, _)
\* names -> packages, from the target on, in any order
BestDeps(sel, todo) ==
    IF todo = {} THEN sel
    ELSE LET n == CHOOSE n \in todo : TRUE
             S == Satisfiers(nodes, n)
         IN  IF S = {} THEN (n :> 0) @@ sel
             ELSE LET i == NewestOf(C, S)
                      more == IF i \in Inst(C) THEN {}
                              ELSE {d.n : d \in Deps(C, i)}
                      s2 == (n :> i) @@ sel
                  IN  BestDeps(s2, (todo \cup more) \ DOMAIN s2)
Selected == LET T == P(C, C.target).n IN
            BestDeps(T :> C.target, {d.n : d \in Deps(C, C.target)} \ {T})
Failed == \/ err
          \/ \E n \in DOMAIN Selected : Selected[n] = 0
          \/ Cyclic(SelEdges(C, Selected))

Finished == err \/ q = {}
Answered ==
    Finished =>
    /\ Uniform(C) =>
         /\ UniformSolvable(C) <=> ~Failed
         /\ ~Failed => {Selected[n] : n \in DOMAIN Selected} \ (Inst(C) \ {C.target})
                        = UniformSolution(C)
    /\ ~Failed =>
         /\ SomeSolution(C)
         /\ \A n \in DOMAIN Selected : Selected[n] \in Inst(C) \/
               \A d \in Deps(C, Selected[n]) :
                  d.n \in DOMAIN Selected /\ Sat(d, P(C, Selected[d.n]))
    \* the two ways of saying that there is a solution agree
    /\ Uniform(C) /\ UniformSolvable(C) => SomeSolution(C)
=============================================================================
