------------------------------- MODULE Solver -------------------------------
(***************************************************************************)
(* Dependency solutions.                                                   *)
(*                                                                         *)
(* A problem c is [pkgs, repo, env, target]: packages [n, p, v, r, deps],  *)
(* the indexes of those the repositories have, of those the environment    *)
(* has installed, and of the package asked for.                            *)
(***************************************************************************)
EXTENDS Requirements, TLC

P(c, i) == c.pkgs[i]
If(cond, clause) == IF cond THEN {clause} ELSE {}
Repo(c) == Range(c.repo)
Inst(c) == Range(c.env)
Deps(c, i) == Range(P(c, i).deps)
RepoFor(c, d) == {i \in Repo(c) : Sat(d, P(c, i))}
InstFor(c, d) == {i \in Inst(c) : Sat(d, P(c, i))}
NewestOf(c, S) == CHOOSE i \in S : \A j \in S :
                     ~VRLess(P(c, i).v, P(c, i).r, P(c, j).v, P(c, j).r)

(***************************************************************************)
(* Graphs of names: whatever is chosen (May), and cycles in them.          *)
(***************************************************************************)
RECURSIVE May(_, _)
May(c, S) ==
    LET T == S \cup UNION {RepoFor(c, d) : d \in UNION {Deps(c, i) : i \in S}}
    IN  IF T = S THEN S ELSE May(c, T)
NameEdges(c, S) == {<<P(c, i).n, d.n>> : i \in S, d \in {}}
                   \cup UNION {{<<P(c, i).n, d.n>> : d \in Deps(c, i)} : i \in S}
RECURSIVE From(_, _)
From(E, S) == LET T == S \cup {e[2] : e \in {e \in E : e[1] \in S}}
              IN  IF T = S THEN S ELSE From(E, T)
Cyclic(E) == \E e \in E : e[1] \in From(E, {e[2]})

(***************************************************************************)
(* Uniform problems: all versions of a name have the same requirements.    *)
(* The needed names, and the demands on each, are a least fixed point.     *)
(***************************************************************************)
Uniform(c) == \A i, j \in Repo(c) \cup {c.target} :
                 P(c, i).n = P(c, j).n => Deps(c, i) = Deps(c, j)
DepsOfName(c, n) == UNION {Deps(c, i) : i \in {i \in Repo(c) \cup {c.target} :
                                                 P(c, i).n = n}}
DemandsOn(c, N, n) == {d \in UNION {DepsOfName(c, m) : m \in N} : d.n = n}
\* the installed package does for all the demands of N on n
Served(c, N, n) == \E i \in Inst(c) : \A d \in DemandsOn(c, N, n) : Sat(d, P(c, i))
RECURSIVE Fix(_, _)
Fix(c, N) ==
    LET wanted == {d.n : d \in UNION {DepsOfName(c, m) : m \in N}}
        T == N \cup {n \in wanted : ~Served(c, N, n)}
    IN  IF T = N THEN N ELSE Fix(c, T)
Wanted(c) == Fix(c, {P(c, c.target).n})
Choices(c, N, n) == {i \in Repo(c) : P(c, i).n = n /\
                        \A d \in DemandsOn(c, N, n) : Sat(d, P(c, i))}
UniformSolvable(c) ==
    LET N == Wanted(c)
        T == P(c, c.target).n
    IN  /\ \A n \in N \ {T} : Choices(c, N, n) # {}
        /\ ~Cyclic({<<m, d.n>> : m \in N, d \in {}} \cup
                   UNION {{<<m, d.n>> : d \in {d \in DepsOfName(c, m) :
                                                  d.n \in N}} : m \in N})
        \* nothing demands the target's name: that would be a loop
        /\ DemandsOn(c, N, T) = {}
UniformSolution(c) ==
    LET N == Wanted(c)
        T == P(c, c.target).n
    IN  {c.target} \cup {NewestOf(c, Choices(c, N, n)) : n \in N \ {T}}

(***************************************************************************)
(* Any problem: is there a way at all to choose one package for each       *)
(* needed name?  sel is a function from names to indexes.                  *)
(***************************************************************************)
Fits(c, sel, i) ==
    /\ \A n \in DOMAIN sel : sel[n] \in Inst(c) \/
          \A d \in Deps(c, sel[n]) : d.n = P(c, i).n => Sat(d, P(c, i))
    /\ i \in Inst(c) \/
          \A d \in Deps(c, i) : /\ d.n # P(c, i).n
                                /\ d.n \in DOMAIN sel => Sat(d, P(c, sel[d.n]))
Open(c, sel) == {d \in UNION {Deps(c, sel[n]) :
                    n \in {n \in DOMAIN sel : sel[n] \notin Inst(c)}} :
                  d.n \notin DOMAIN sel}
SelEdges(c, sel) ==
    UNION {{<<n, d.n>> : d \in Deps(c, sel[n])} :
              n \in {n \in DOMAIN sel : sel[n] \notin Inst(c)}}
RECURSIVE Solvable(_, _)
Solvable(c, sel) ==
    IF Open(c, sel) = {} THEN ~Cyclic(SelEdges(c, sel))
    ELSE LET d == CHOOSE d \in Open(c, sel) : TRUE IN
         \E i \in RepoFor(c, d) \cup InstFor(c, d) :
            Fits(c, sel, i) /\ Solvable(c, (d.n :> i) @@ sel)
SomeSolution(c) ==
    /\ \A d \in Deps(c, c.target) : d.n # P(c, c.target).n
    /\ Solvable(c, P(c, c.target).n :> c.target)

(***************************************************************************)
(* Clauses broken when the solver answers st and the sequence R of         *)
(* indexes; hide: installed packages are left out.                         *)
(***************************************************************************)
Members(c, R) == Range(R) \ (Inst(c) \ {c.target})
RECURSIVE Reach(_, _, _)
Reach(c, R, S) ==
    LET T == S \cup {i \in Range(R) : \E j \in S \ (Inst(c) \ {c.target}) :
                        \E d \in Deps(c, j) : d.n = P(c, i).n}
    IN  IF T = S THEN S ELSE Reach(c, R, T)

AnswerBad(c, hide, R) ==
    LET M == Members(c, R)
        one(d) == {i \in Range(R) : P(c, i).n = d.n}
        met(d) == IF one(d) # {}
                  THEN \A i \in one(d) : Sat(d, P(c, i))
                  ELSE hide /\ InstFor(c, d) # {}
        needs == UNION {Deps(c, i) : i \in M}
        pos(i) == CHOOSE k \in 1..Len(R) : R[k] = i
    IN
      If(c.target \notin Range(R), "S01.target")
      \cup If(\E d \in needs : ~met(d), "S01.satisfied")
      \cup If(\E i, j \in Range(R) : i # j /\ P(c, i).n = P(c, j).n, "S01.one")
      \cup If(Reach(c, R, {c.target}) # Range(R), "S01.needless")
      \cup If(hide /\ (Range(R) \cap (Inst(c) \ {c.target})) # {}, "S01.listed")
      \cup If(~hide /\ \E d \in needs : one(d) = {}, "S01.not_listed")
      \cup If(\E i \in M \ {c.target} :
                 \E e \in Inst(c) : \A d \in needs :
                    d.n = P(c, i).n => Sat(d, P(c, e)) /\ d.n = P(c, e).n,
              "S01.installed")
      \cup If(Len(R) # Cardinality(Range(R)), "S02.once")
      \cup If(\E i \in M : \E d \in Deps(c, i) : \E j \in one(d) :
                 j # i /\ pos(j) > pos(i), "S02.order")

SolveBad(c, hide, st, loop, R) ==
    IF st \notin {"ok", "ipkg"} THEN {"S04.fails", "S03.fails"}
    ELSE
    (IF st = "ok" THEN AnswerBad(c, hide, R) ELSE {})
    \cup If(st = "ok" /\ ~SomeSolution(c), "S04.unsolvable")
    \cup If(st = "ipkg" /\ loop /\
            ~Cyclic(NameEdges(c, May(c, {c.target}))), "S04.no_loop")
    \cup (IF ~Uniform(c) THEN {}
          ELSE IF UniformSolvable(c)
          THEN If(st # "ok", "S03.not_found")
               \cup If(st = "ok" /\ Members(c, R) # UniformSolution(c),
                       "S03.newest")
          ELSE If(st = "ok", "S03.found") \cup If(st = "ok", "S04.found"))
=============================================================================
