----------------------------- MODULE MC_Contain -----------------------------
(***************************************************************************)
(* Every sequence of a few members and removals, from several prefixes.    *)
(* With all precautions nothing outside ever changes; without any, or with *)
(* all but one, each sequence which gets outside is printed, to be tried   *)
(* on the code.                                                            *)
(***************************************************************************)
EXTENDS Contain, Json

CONSTANTS Forgotten, Steps, Wide

Links == {[k |-> "l", t |-> <<"O">>, a |-> TRUE],
          [k |-> "l", t |-> <<"..", "O">>, a |-> FALSE],
          [k |-> "l", t |-> <<"..", "O", "s">>, a |-> FALSE]}
Bare == (<<"P">> :> [k |-> "d", i |-> 0]) @@ (<<"O">> :> [k |-> "d", i |-> 0])
        @@ (<<"O", "s">> :> [k |-> "f", i |-> 1])
        @@ (<<"O", "e">> :> [k |-> "d", i |-> 0])
Starts == {[n |-> Bare, c |-> <<"old">>, dirs |-> {}, links |-> {}]}
          \cup {[n |-> (<<"P", "a">> :> x) @@ Bare, c |-> <<"old">>, dirs |-> {}, links |-> {}] : x \in Links}

M(k, p, abs, t, tabs) == [k |-> k, path |-> p, abs |-> abs, target |-> t, tabs |-> tabs]
Relative == {<<"a">>, <<"b">>, <<"a", "s">>, <<"a", "b">>, <<"..", "O", "s">>,
             <<"..", "O", "x">>}
            \cup (IF Wide THEN {<<"..">>, <<"b", "..", "..", "O", "s">>,
                                <<"a", "..", "O", "s">>, <<"..", "O">>,
                                <<"a", "e">>, <<".", "a", "s">>} ELSE {})
Places == {<<p, FALSE>> : p \in Relative} \cup {<<<<"O", "s">>, TRUE>>,
                                                <<<<"O", "x">>, TRUE>>}
Targets == {<<<<"..", "O">>, FALSE>>, <<<<"O">>, TRUE>>, <<<<"..", "O", "s">>, FALSE>>,
            <<<<"O", "s">>, TRUE>>, <<<<"a">>, FALSE>>, <<<<"a", "s">>, FALSE>>}
           \cup (IF Wide THEN {<<<<"..">>, FALSE>>, <<<<".">>, FALSE>>,
                               <<<<"b">>, FALSE>>, <<<<"a", "..", "O">>, FALSE>>}
                 ELSE {})
Members == {M(k, p[1], p[2], <<>>, FALSE) : k \in {"f", "d", "u"}, p \in Places}
           \cup {M("e", <<>>, FALSE, <<>>, FALSE)}
           \cup {M(k, p[1], p[2], t[1], t[2]) : k \in {"l", "h"}, p \in Places,
                                                t \in Targets}

VARIABLES fs, start, seq, w
vars == <<fs, start, seq, w>>
View == <<fs, start, w, Len(seq)>>
Init == w \in Forgotten /\ fs \in Starts /\ start = fs /\ seq = <<>>
Escaped(x) == Outside(End(x)) # Outside(start)
Next == /\ Len(seq) < Steps /\ ~Escaped(fs)
        /\ \E m \in Members :
             LET r == IF w = "all" THEN Careless(fs, m) ELSE Careful(fs, m, w) IN
             /\ fs' = r.fs /\ seq' = Append(seq, m)
             /\ IF Escaped(fs') /\ w # "none"
                THEN PrintT(ToJson([w |-> w, seq |-> seq', links |->
                       IF <<"P", "a">> \in DOMAIN start.n
                       THEN <<start.n[<<"P", "a">>]>> ELSE <<>>]))
                ELSE TRUE
        /\ UNCHANGED <<start, w>>
Contained == w = "none" => ~Escaped(fs)
=============================================================================
