------------------------------- MODULE MC_Load -------------------------------
(***************************************************************************)
(* Formula files are executed in modules.  A module is found again by a    *)
(* key; a file which finds one executes in it, among the names which are   *)
(* there already.  KeyOf = "path" gives every file a module of its own;    *)
(* "name" is what the name of the file, with dots as underscores, gives:   *)
(* with it, TLC finds the histories in which files disturb each other,     *)
(* and these are made into files and loaded by the code.                   *)
(***************************************************************************)
EXTENDS Load, Json

CONSTANTS KeyOf, Depth, Emit

\* Files: directory, name, key of the name, class they define
Places == {<<"p", "x-1.0">>, <<"p", "x-1_0">>, <<"q", "x-1.0">>, <<"q", "y-1.0">>}
Key(place) == IF KeyOf = "path" THEN place
              ELSE <<IF place[2] = "x-1_0" THEN "x-1.0" ELSE place[2]>>
Classes == {"F", "G"}
VARIABLES files, modules, hist, last, n
vars == <<files, modules, hist, last, n>>

Init == /\ files \in [Places -> Classes]
        /\ modules = [k \in {} |-> <<>>]
        /\ hist = <<>> /\ last = "none" /\ n = 0
\* names of the module -> the file which defined them
Load(place) ==
    LET k == Key(place)
        old == IF k \in DOMAIN modules THEN modules[k] ELSE [c \in {} |-> <<>>]
        new == ((files[place] :> place) @@ ("tag" :> place)) @@ old
    IN /\ n < Depth /\ n' = n + 1 /\ UNCHANGED files
       /\ modules' = (k :> new) @@ modules
       /\ hist' = Append(hist, place)
       /\ last' = IF Cardinality(DOMAIN new \ {"tag"}) = 1 THEN "class" ELSE "many"
Next == \E place \in Places : Load(place)

\* Every file has exactly the class it defines
LoadedRight == last # "many"
\* and every class sees the variables of its own file
UsesRight == \A i \in DOMAIN hist :
    LET m == modules[Key(hist[i])] IN
    m["tag"] = hist[i] /\ m[files[hist[i]]] = hist[i]
Good == LoadedRight /\ UsesRight
\* The shortest histories which disturb, to be replayed
Dump == (Emit /\ ~Good) => PrintT(ToJson([files |-> [i \in 1..Len(hist) |->
            [dir |-> hist[i][1], name |-> hist[i][2], cls |-> files[hist[i]]]]]))
GoOn == ~Emit \/ Good
=============================================================================
