------------------------------- MODULE Builds -------------------------------
(***************************************************************************)
(* Building the formulas of a repository.                                  *)
(*                                                                         *)
(* A problem c is [f, repo, env, hasenv]: the formulas [n, v, r, p, deps,  *)
(* kind], and the packages [n, v, r, p, deps] which the package repository *)
(* has and which the environment has installed.  kind is "ok", "fail"      *)
(* (its build fails), "incomplete" (it cannot even be prepared) or         *)
(* "malformed" (one of its dependencies, not listed, means nothing).       *)
(* The demands of all are consistent, and the packages can be installed.   *)
(***************************************************************************)
EXTENDS Requirements, TLC

If(cond, clause) == IF cond THEN {clause} ELSE {}
F(c) == 1..Len(c.f)
Deps(c, i) == Range(c.f[i].deps)
\* already packaged: same name, version and revision
Packaged(c, i) == \E p \in Range(c.repo) :
                     p.n = c.f[i].n /\ VREq(p.v, p.r, c.f[i].v, c.f[i].r)
Given(c, d) == \E p \in Range(c.repo) \cup Range(c.env) : Sat(d, p)
\* Met by what is there and by what has been built (B)
Met(c, B, d) == Given(c, d) \/ \E i \in B : Sat(d, c.f[i])
AllMet(c, B, i) == \A d \in Deps(c, i) : Met(c, B, d)
Todo(c) == {i \in F(c) : ~Packaged(c, i) /\ c.f[i].kind # "incomplete"}

\* The formulas which can be built: a least fixed point
RECURSIVE Grow(_, _)
Grow(c, B) ==
    LET T == B \cup {i \in Todo(c) : c.f[i].kind = "ok" /\ AllMet(c, B, i)}
    IN  IF T = B THEN B ELSE Grow(c, T)
Buildable(c) == Grow(c, {})

\* The formulas on which i may wait
Providers(c, i) == {j \in Todo(c) \ {i} : \E d \in Deps(c, i) : Sat(d, c.f[j])}
RECURSIVE Upstream(_, _)
Upstream(c, S) == LET T == S \cup UNION {Providers(c, i) : i \in S}
                  IN  IF T = S THEN S ELSE Upstream(c, T)
\* nothing which it waits for, directly or not, fails or is part of a loop
Clean(c, i) == LET U == Upstream(c, Providers(c, i)) IN
               /\ U \subseteq Buildable(c)
               /\ \A j \in U \cup {i} : j \notin Upstream(c, Providers(c, j))

(* Clauses broken: R the packages returned, X the formulas whose           *)
(* installation was run, in order (indexes), L the index afterwards:       *)
(* <<name, formula or 0>>                                                  *)
BuildsBad(c, st, R, X, L, found) ==
    IF st # "ok" THEN {"P03.fails"}
    ELSE
    LET B == Buildable(c)
        pos(i) == CHOOSE k \in 1..Len(R) : R[k] = i
    IN  If(\E i \in B : i \notin Range(R), "P03.not_built")
        \cup If(\E i \in Range(R) : i \notin B, "P03.unexpected")
        \cup If(Len(R) # Cardinality(Range(R)) \/ Len(X) # Cardinality(Range(X)),
                "P03.once")
        \cup If(Range(X) \cap {i \in F(c) : Packaged(c, i)} # {}, "P03.again")
        \cup If(\E k \in 1..Len(R) : R[k] # 0 /\
                   ~AllMet(c, {R[j] : j \in 1..k-1} \ {0}, R[k]), "P03.order")
        \cup If(\E i \in B \cap Range(R) : Clean(c, i) /\
                   \E j \in Providers(c, i) \cap Range(R) : pos(j) > pos(i),
                "P03.order")
        \cup If(Range(found) # Range(R) \/
                Len(L) # Len(c.repo) + Cardinality(Range(R)), "P03.indexed")
=============================================================================
