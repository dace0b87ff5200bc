------------------------------- MODULE MC_Env -------------------------------
(***************************************************************************)
(* Every history of installations and removals over small catalogs: the    *)
(* algorithm does what Env demands of it, in every reachable state.        *)
(* With Emit, the transitions are printed, to be replayed on the code.     *)
(***************************************************************************)
EXTENDS Env, Json, IOUtils

CONSTANT Emit
Catalogs == ndJsonDeserialize(IOEnv.CATALOGS)
Range2(f) == {f[x] : x \in DOMAIN f}

VARIABLES k, s, last
vars == <<k, s, last>>
C == Catalogs[k]
Empty == [x \in {} |-> 0]

Init == /\ k \in 1..Len(Catalogs)
        /\ s = [rec |-> Empty, files |-> Empty, cfg |-> Empty]
        /\ last = [op |-> "init"]

Install(i, repo) ==
    LET r == DoInstall(C, s, i, repo, {}) IN
    /\ s' = r.s
    /\ last' = [op |-> "install", i |-> i, repo |-> repo, st |-> r.st, pre |-> s]
Uninstall(n) ==
    /\ s' = IF n \in DOMAIN s.rec THEN DoUninstall(C, s, n) ELSE s
    /\ last' = [op |-> "uninstall", n |-> n, pre |-> s,
                st |-> IF n \in DOMAIN s.rec THEN "ok" ELSE "ipkg"]
User(x) ==
    /\ x \in DOMAIN s.files \/ \A i \in 1..Len(C.pkgs) : x \notin Paths(C, i)
    /\ s' = IF x \in DOMAIN s.files
            THEN [s EXCEPT !.files = Drop(s.files, {x})]
            ELSE [s EXCEPT !.files = (x :> "mine") @@ s.files]
    /\ last' = [op |-> "user", x |-> x, st |-> "ok", pre |-> s]
Next == /\ UNCHANGED k
        /\ \/ \E i \in 1..Len(C.pkgs), repo \in BOOLEAN : Install(i, repo)
           \/ \E n \in {C.pkgs[i].n : i \in 1..Len(C.pkgs)} : Uninstall(n)
           \/ \E x \in Range(C.user) : User(x)
View == <<k, s>>

\* What the algorithm did is what the clauses demand
Bad == LET r == last' IN
    CASE r.op = "install" -> InstallBad(C, s, r.i, r.repo, r.st, s')
      [] r.op = "uninstall" -> UninstallBad(C, s, r.n, r.st, s')
      [] r.op = "user" -> {}
Right == [][Bad = {} \/ ~PrintT(<<"BAD", k, last', s, Bad>>)]_vars
\* In every state: recorded packages are there, unless the user removed files
Wf == \A n \in DOMAIN s.rec :
         /\ s.rec[n] \in 1..Len(C.pkgs) /\ P(C, s.rec[n]).n = n
         /\ \A f \in Paths(C, s.rec[n]) : File(s, f) \in {"none", Tok(C, s.rec[n], f)}
\* Installing what is there, then removing it, comes back
RoundTrip ==
    [][LET r == last' IN
       (r.op = "install" /\ r.st = "ok" /\ P(C, r.i).n \notin DOMAIN s.rec
          /\ Drop(s'.rec, {P(C, r.i).n}) = s.rec
          /\ Paths(C, r.i) \cap DOMAIN s.files = {})
       => DoUninstall(C, s', P(C, r.i).n) = s]_vars

\* Print each transition once
Printed == \/ ~Emit
           \/ PrintT(ToJson([k |-> k, s |-> s, t |-> s',
                             o |-> [x \in DOMAIN last' \ {"pre"} |-> last'[x]]]))
=============================================================================
