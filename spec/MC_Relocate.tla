---------------------------- MODULE MC_Relocate ----------------------------
(***************************************************************************)
(* Every small file, in every place: rewriting line after line, as the     *)
(* implementation does, gives what Relocate says, and touches nothing else.*)
(***************************************************************************)
EXTENDS Relocate

CONSTANT Max
LineSet == {<<"#!", "@B", "x\n">>, <<"prefix=", "@B", "\n">>,
            <<"prefix=", "y\n">>, <<"libdir=", "@B", "/", "@B", "\n">>,
            <<"z", "@B", "\n">>, <<"@B">>, <<"\n">>}
Places == {[comps |-> <<"bin", "x">>, ext |-> "", lib |-> FALSE],
           [comps |-> <<"bin", "d", "x">>, ext |-> "", lib |-> FALSE],
           [comps |-> <<"share", "x">>, ext |-> "", lib |-> FALSE],
           [comps |-> <<"lib64", "x.la">>, ext |-> ".la", lib |-> TRUE],
           [comps |-> <<"libexec", "x.la">>, ext |-> ".la", lib |-> TRUE],
           [comps |-> <<"lib", "pkgconfig", "x.pc">>, ext |-> ".pc",
            lib |-> TRUE],
           [comps |-> <<"x">>, ext |-> "", lib |-> FALSE]}
\* place, kind, lines; then the scan: lines left, lines written, done?
VARIABLES f, todo, out, found
vars == <<f, todo, out, found>>

Lists == UNION {[1..n -> LineSet] : n \in 0..Max}
Init == /\ \E p \in Places, k \in {"f", "l"}, ls \in Lists :
              f = [comps |-> p.comps, ext |-> p.ext, lib |-> p.lib,
                   kind |-> k, lines |-> ls]
        /\ todo = f.lines /\ out = "" /\ found = FALSE
Wanted(line) ==
    CASE Class(f) = "script" -> todo = f.lines
      [] Class(f) = "pkgconfig" -> Starts(line, "prefix=")
      [] Class(f) = "libtool" -> Starts(line, "libdir=")
      [] OTHER -> FALSE
Next == /\ todo # <<>>
        /\ LET hit == ~found /\ Wanted(Head(todo)) IN
           /\ out' = out \o Text(Head(todo), IF hit THEN "/inst" ELSE "/build")
           /\ found' = (found \/ hit)
        /\ todo' = Tail(todo) /\ UNCHANGED f
Done == todo = <<>>
Same == Done => out = Relocated(f, "/build", "/inst")
\* Nothing changes when the prefixes are the same; at most one line does
Identity == Relocated(f, "/build", "/build") = Packaged(f, "/build")
Elsewhere == Class(f) = "other" =>
                Relocated(f, "/build", "/inst") = Packaged(f, "/build")
\* Only the prefix matters: relocating to p equals having been built for p,
\* as far as the designated line goes
OneLine == \A i \in 1..Len(f.lines) : i # Line(f) =>
    Relocated([f EXCEPT !.lines[i] = <<"q\n">>], "/build", "/inst") =
    Content([f.lines EXCEPT ![i] = <<"q\n">>],
            [j \in 1..Len(f.lines) |-> IF j = Line(f) THEN "/inst" ELSE "/build"])
    \/ Line([f EXCEPT !.lines[i] = <<"q\n">>]) # Line(f)
=============================================================================
