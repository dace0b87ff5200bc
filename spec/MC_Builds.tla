----------------------------- MODULE MC_Builds -----------------------------
(***************************************************************************)
(* The formulas of generated problems, built one by one in every order     *)
(* which the rule of the implementation allows: a formula whose            *)
(* dependencies are there, preferably one for which no other formula to    *)
(* be built would be a dependency.  The order does not matter.             *)
(***************************************************************************)
EXTENDS Builds, Json, IOUtils

Problems == ndJsonDeserialize(IOEnv.PROBLEMS)
VARIABLES k, todo, built
vars == <<k, todo, built>>
C == Problems[k]

Init == k \in 1..Len(Problems) /\ todo = Todo(C) /\ built = <<>>
Ready == {i \in todo : /\ C.f[i].kind # "malformed"
                        /\ AllMet(C, Range(built), i)}
Preferred == {i \in Ready : Providers(C, i) \cap todo = {}}
Next == /\ UNCHANGED k
        /\ \E i \in IF Preferred # {} THEN Preferred ELSE Ready :
              /\ todo' = todo \ {i}
              /\ built' = IF C.f[i].kind = "ok" THEN Append(built, i) ELSE built
\* The clause on order holds of every prefix; at the end all of them do
Finished == Ready = {}
Right == Finished => BuildsBad(C, "ok", built, built,
                               C.repo \o [i \in 1..Len(built) |-> 0], built) = {}
Ends == <>[](Ready = {})
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
