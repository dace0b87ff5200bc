------------------------------- MODULE MC_Exec -------------------------------
(***************************************************************************)
(* A command goes through: being split, looked for, started, running,      *)
(* ended.  All texts of a small alphabet, and all ways of ending.          *)
(*                                                                         *)
(* Variables follow the life of the command, step by step; the operators   *)
(* of Exec give its outcome at once: Agree says they are the same.         *)
(***************************************************************************)
EXTENDS Exec, TLC, Json

CONSTANTS Length, Emit
Alphabet == {"a", " ", "'", "\"", "\\"}
VARIABLES c, pc, s, i, ran, outcome
vars == <<c, pc, s, i, ran, outcome>>

Texts == UNION {[1..n -> Alphabet] : n \in 0..Length}
Small == UNION {[1..n -> {"a", "'", "\\", " "}] : n \in 0..2}

Commands ==
    {[text |-> TRUE, chars |-> t, words |-> <<>>, found |-> "ok", dir |-> TRUE, program |-> <<"a">>,
      status |-> 0, signal |-> 0] : t \in Texts}
    \cup
    {[text |-> x, chars |-> <<"a">>, words |-> w, found |-> f, dir |-> d, program |-> <<"a">>,
      status |-> st, signal |-> sg] :
      x \in BOOLEAN, w \in {<<>>, << <<"a">> >>}, f \in {"ok", "missing", "forbidden"},
      d \in BOOLEAN, st \in {0, 1, 255}, sg \in {0, 9}}

Init == /\ c \in Commands /\ pc = "split" /\ s = Start /\ i = 1
        /\ ran = 0 /\ outcome = ""
End(o) == pc' = "done" /\ outcome' = o
Split == /\ pc = "split"
         /\ IF c.text /\ i <= Len(c.chars)
            THEN s' = Read(s, c.chars[i]) /\ i' = i + 1 /\ UNCHANGED <<pc, outcome>>
            ELSE /\ UNCHANGED <<s, i>>
                 /\ IF IF c.text THEN Final(s).ok /\ Final(s).words # <<>>
                       ELSE c.words # <<>>
                    THEN pc' = "look" /\ outcome' = outcome
                    ELSE End("error")
         /\ UNCHANGED <<c, ran>>
Look == /\ pc = "look" /\ UNCHANGED <<c, s, i, ran>>
        /\ IF c.dir /\ c.found = "ok" /\
              (IF c.text THEN Final(s).words ELSE c.words)[1] = c.program
           THEN pc' = "run" /\ outcome' = outcome
           ELSE End("error")
Run == /\ pc = "run" /\ ran' = ran + 1 /\ pc' = "end"
       /\ UNCHANGED <<c, s, i, outcome>>
Stop == /\ pc = "end" /\ UNCHANGED <<c, s, i, ran>>
        /\ End(IF c.signal # 0 \/ c.status # 0 THEN "error" ELSE "ok")
Next == Split \/ Look \/ Run \/ Stop

Agree == pc = "done" =>
    /\ outcome = Outcome(c)
    /\ ran = IF Starts(c) THEN 1 ELSE 0
    /\ c.text => Final(s) = Words(c.chars)
\* Words which are quoted are read back, whatever they contain
ASSUME \A w \in Small, v \in Small :
    Words(QuoteAll(<<w, v>>, 1)) = [ok |-> TRUE, words |-> <<w, v>>]

Printed == ~Emit \/ pc # "split" \/ i # 1 \/ ~c.text \/ PrintT(ToJson([t |-> c.chars]))
=============================================================================
