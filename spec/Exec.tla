-------------------------------- MODULE Exec --------------------------------
(***************************************************************************)
(* Running a command.                                                      *)
(*                                                                         *)
(* A command is either a sequence of words, or a text which is split in    *)
(* words as a shell does.  A text is a sequence of characters.             *)
(***************************************************************************)
EXTENDS Naturals, Sequences

White == {" ", "\t", "\n", "\r"}

(***************************************************************************)
(* The splitter, as an automaton reading one character at a time:          *)
(*   q      "" outside of quotes, "'" or "\"" inside of some               *)
(*   esc    the previous character was a backslash                         *)
(*   open   a word has begun (maybe an empty one, as '' is a word)         *)
(***************************************************************************)
Start == [q |-> "", esc |-> FALSE, open |-> FALSE, word |-> <<>>, words |-> <<>>]

Read(s, c) ==
    IF s.esc
    THEN [s EXCEPT !.esc = FALSE, !.open = TRUE,
            \* inside of double quotes, only \ and " can be protected
            !.word = IF s.q = "\"" /\ c \notin {"\\", "\""}
                     THEN @ \o <<"\\", c>> ELSE Append(@, c)]
    ELSE IF s.q = "'"
    THEN IF c = "'" THEN [s EXCEPT !.q = ""] ELSE [s EXCEPT !.word = Append(@, c)]
    ELSE IF s.q = "\""
    THEN IF c = "\"" THEN [s EXCEPT !.q = ""]
         ELSE IF c = "\\" THEN [s EXCEPT !.esc = TRUE]
         ELSE [s EXCEPT !.word = Append(@, c)]
    ELSE IF c \in White
    THEN IF s.open THEN [s EXCEPT !.open = FALSE, !.word = <<>>,
                                  !.words = Append(@, s.word)]
         ELSE s
    ELSE IF c \in {"'", "\""} THEN [s EXCEPT !.q = c, !.open = TRUE]
    ELSE IF c = "\\" THEN [s EXCEPT !.esc = TRUE, !.open = TRUE]
    ELSE [s EXCEPT !.open = TRUE, !.word = Append(@, c)]

RECURSIVE Scan(_, _, _)
Scan(s, text, i) == IF i > Len(text) THEN s ELSE Scan(Read(s, text[i]), text, i + 1)

\* A text may end neither inside of quotes nor after a backslash
Final(s) == [ok |-> s.q = "" /\ ~s.esc,
             words |-> IF s.open THEN Append(s.words, s.word) ELSE s.words]
Words(text) == Final(Scan(Start, text, 1))

\* How to write words so that they are read back: inside of quotes, a quote
\* itself is written '"'"'
RECURSIVE QuoteChars(_, _)
QuoteChars(w, i) ==
    IF i > Len(w) THEN <<>>
    ELSE (IF w[i] = "'" THEN <<"'", "\"", "'", "\"", "'">> ELSE <<w[i]>>)
         \o QuoteChars(w, i + 1)
Quote(w) == <<"'">> \o QuoteChars(w, 1) \o <<"'">>
RECURSIVE QuoteAll(_, _)
QuoteAll(ws, i) == IF i > Len(ws) THEN <<>>
                   ELSE (IF i = 1 THEN <<>> ELSE <<" ">>) \o Quote(ws[i])
                        \o QuoteAll(ws, i + 1)

(***************************************************************************)
(* What becomes of a command c: whether it starts, and how it ends.        *)
(*   program  the only one there is                                        *)
(*   found    "ok" if it exists and may be executed                        *)
(*   dir      its directory exists                                         *)
(***************************************************************************)
Parses(c) == IF c.text THEN LET w == Words(c.chars) IN w.ok /\ Len(w.words) > 0
             ELSE Len(c.words) > 0
Arguments(c) == IF c.text THEN Words(c.chars).words ELSE c.words
Starts(c) == /\ Parses(c) /\ c.found = "ok" /\ c.dir
             /\ Arguments(c)[1] = c.program
Succeeds(c) == Starts(c) /\ c.status = 0 /\ c.signal = 0
Outcome(c) == IF Succeeds(c) THEN "ok" ELSE "error"
=============================================================================
