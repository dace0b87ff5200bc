------------------------------ MODULE ReqText ------------------------------
(***************************************************************************)
(* The concrete syntax of requirements, character by character:            *)
(*                                                                         *)
(*   [platform ":"] name ["[" extra {"," extra} "]"] [selector {"," selector}] *)
(*   selector ::= ("==" | "!=" | "<" | "<=" | ">" | ">=") version          *)
(*                                                                         *)
(* Texts are sequences of one-character strings.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Digit  == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Letter == {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m",
           "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
           "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M",
           "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z"}
NameCh  == Digit \cup Letter \cup {"_", "-"}
VerCh   == NameCh \cup {"."}
ExtraCh == NameCh \cup {",", " "}
SelCh   == VerCh \cup {",", "!", "=", ">", "<", " "}
Blank   == {" ", "\t", "\n"}

RECURSIVE LTrim(_), RTrim(_), Span(_, _, _), Find(_, _, _), Split(_, _)
LTrim(s) == IF s # <<>> /\ Head(s) \in Blank THEN LTrim(Tail(s)) ELSE s
RTrim(s) == IF s # <<>> /\ s[Len(s)] \in Blank
            THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == LTrim(RTrim(s))
\* Length of the longest prefix of s made of characters of C
Span(s, C, n) == IF n < Len(s) /\ s[n + 1] \in C THEN Span(s, C, n + 1) ELSE n
\* First index >= i of c in s, 0 if there is none
Find(s, c, i) == IF i > Len(s) THEN 0
                 ELSE IF s[i] = c THEN i ELSE Find(s, c, i + 1)
Split(s, c) == LET i == Find(s, c, 1) IN
               IF i = 0 THEN <<s>>
               ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + 1, Len(s)), c)
From(s, i) == SubSeq(s, i, Len(s))
All(s, C) == \A i \in 1..Len(s) : s[i] \in C

PlatformOK(s) == LET t == Trim(s) IN
    \/ Len(t) = 3 /\ t[1] \in {"a", "A"} /\ t[2] \in {"n", "N"}
                  /\ t[3] \in {"y", "Y"}
    \/ Cardinality({i \in 1..Len(t) : t[i] = "-"}) = 2

OpLen(s) == IF Len(s) >= 2 /\ s[2] = "=" /\ s[1] \in {"=", "!", "<", ">"} THEN 2
            ELSE IF Len(s) >= 1 /\ s[1] \in {"<", ">"} THEN 1 ELSE 0
SelectorOK(piece) ==
    LET s == Trim(piece)
        n == OpLen(s)
        v == Trim(From(s, n + 1))
    IN  n > 0 /\ v # <<>> /\ All(v, VerCh)

\* [ok, name, extras, sels]: the text read as a requirement
Parsed(text) ==
    LET colon == Find(text, ":", 1)
        plat  == SubSeq(text, 1, colon - 1)
        body  == Trim(From(text, colon + 1))
        nlen  == Span(body, NameCh, 0)
        name  == SubSeq(body, 1, nlen)
        rest  == LTrim(From(body, nlen + 1))
        brack == rest # <<>> /\ Head(rest) = "["
        close == Find(rest, "]", 1)
        inner == IF brack /\ close > 0 THEN SubSeq(rest, 2, close - 1) ELSE <<>>
        after == IF brack /\ close > 0 THEN LTrim(From(rest, close + 1)) ELSE rest
        pieces == IF after = <<>> THEN <<>> ELSE Split(after, ",")
        extras == SelectSeq([i \in 1..Len(Split(inner, ",")) |->
                               Trim(Split(inner, ",")[i])],
                            LAMBDA x : x # <<>>)
    IN  [ok |-> /\ colon = 0 \/ PlatformOK(plat)
                /\ nlen > 0
                /\ brack => close > 2 /\ All(inner, ExtraCh)
                /\ All(after, SelCh)
                /\ \A i \in 1..Len(pieces) : SelectorOK(pieces[i]),
         name |-> name, extras |-> extras,
         sels |-> [i \in 1..Len(pieces) |->
                     LET s == Trim(pieces[i]) n == OpLen(s) IN
                     [o |-> SubSeq(s, 1, n), v |-> Trim(From(s, n + 1))]]]

\* Versions made of digits and dots only: their tokens
DigitValue(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2
                   [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5
                   [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8
                   [] c = "9" -> 9
RECURSIVE Number(_, _)
Number(s, acc) == IF s = <<>> THEN acc
                  ELSE Number(Tail(s), acc * 10 + DigitValue(Head(s)))
Numeric(v) == /\ All(v, Digit \cup {"."})
              /\ \A i \in 1..Len(Split(v, ".")) :
                    Len(Split(v, ".")[i]) \in 1..6
Tokens(v) == [i \in 1..Len(Split(v, ".")) |-> Number(Split(v, ".")[i], 0)]
OpOf(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o s[2]
=============================================================================
