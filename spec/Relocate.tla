------------------------------ MODULE Relocate ------------------------------
(***************************************************************************)
(* Installing files in another prefix than the one they were built in.     *)
(*                                                                         *)
(* The content of a file is a sequence of lines, a line is a sequence of   *)
(* pieces: the build prefix, written "@B", or another text (the end of the *)
(* line included).  The names of the directories of a file, and its own,   *)
(* are its components.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Prefix == "@B"
RECURSIVE Text(_, _)
Text(line, p) == IF line = <<>> THEN ""
                 ELSE (IF Head(line) = Prefix THEN p ELSE Head(line))
                      \o Text(Tail(line), p)
RECURSIVE Content(_, _)
\* The bytes of lines, with a prefix for each of them
Content(lines, prefixes) ==
    IF lines = <<>> THEN ""
    ELSE Text(Head(lines), Head(prefixes))
         \o Content(Tail(lines), Tail(prefixes))

Libs == {"lib", "lib64"}
PkgConfig(f) == /\ f.ext = ".pc" /\ Len(f.comps) = 3
                /\ f.comps[1] \in Libs /\ f.comps[2] = "pkgconfig"
Libtool(f) == f.ext = ".la" /\ Len(f.comps) = 2 /\ f.comps[1] \in Libs
\* bin, sbin, lib* directories
Region(f) == \/ Len(f.comps) = 2 /\ f.comps[1] \in {"bin", "sbin"}
             \/ Len(f.comps) > 1 /\ f.lib
Starts(line, s) == line # <<>> /\ Head(line) = s
MachO(f) == f.lines # <<>> /\ Starts(f.lines[1], "MAGIC")

Class(f) == IF f.kind # "f" \/ ~Region(f) THEN "other"
            ELSE IF PkgConfig(f) THEN "pkgconfig"
            ELSE IF Libtool(f) THEN "libtool"
            ELSE IF f.lines # <<>> /\ Starts(f.lines[1], "#!") THEN "script"
            ELSE IF MachO(f) THEN "macho" ELSE "other"

\* The only line which changes, 0 if there is none
Marked(f, s) == {i \in 1..Len(f.lines) : Starts(f.lines[i], s)}
First(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
Line(f) == CASE Class(f) = "script" -> 1
             [] Class(f) = "pkgconfig" -> First(Marked(f, "prefix="))
             [] Class(f) = "libtool" -> First(Marked(f, "libdir="))
             [] OTHER -> 0

Relocated(f, bp, ip) ==
    Content(f.lines, [i \in 1..Len(f.lines) |-> IF i = Line(f) THEN ip ELSE bp])
Packaged(f, bp) == Content(f.lines, [i \in 1..Len(f.lines) |-> bp])

\* What the tools are asked to change in a Mach-O file
LibOf(line) == SubSeq(line, 2, Len(line) - 1)
Linked(f) == {LibOf(f.lines[i]) : i \in Marked(f, "LIB ")}
Changes(f, bp, ip) ==
    IF Class(f) # "macho" \/ bp = ip THEN {}
    ELSE {<<Text(x, bp), Text(x, ip)>> : x \in {x \in Linked(f) :
                                                  Starts(x, Prefix)}}
=============================================================================
