--------------------------- MODULE TraceOrdering ---------------------------
(***************************************************************************)
(* Comparisons and sorts recorded from the real code, one a line.          *)
(***************************************************************************)
EXTENDS Ordering, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

\* x op y for the six operators; res maps each to "true", "false", "ipkg"
\* (an ipkg error was raised) or something else
Truth(b) == IF b THEN "true" ELSE "false"
Expected(e, op) ==
    CASE e.kind = "pkg"  -> Truth(PkgOp(op, e.x, e.y))
      [] e.kind = "spec" -> Truth(SpecOp(op, e.x, e.y))
      [] e.kind = "bad"  -> "ipkg"
      [] e.kind = "other" -> Truth(OtherOp(op))

CmpBad(e) == {"V01." \o e.kind \o "." \o op :
                 op \in {o \in Ops : e.res[o] # Expected(e, o)}}

\* in, out: sequences of indexes of items; key[i]: tokens (kind "v") or an
\* integer (kind "k", a parser of the caller's own)
LeqBy(e) == [i \in 1..Len(e.key), j \in 1..Len(e.key) |->
               IF e.kind = "v" THEN VLeq(e.key[i], e.key[j])
                               ELSE e.key[i] <= e.key[j]]
\* Those which are equal to the i-th, as they come in s
Equals(e, s, leq, i) == SelectSeq(s, LAMBDA x : leq[x, i] /\ leq[i, x])
SortBad(e) ==
    LET leq == LeqBy(e)
        Leq(i, j) == leq[i, j]
    IN  IF e.st # "ok" THEN {"V02.raises"}
        ELSE (IF IsPermutation(e.in, e.out) THEN {} ELSE {"V02.items"})
             \cup (IF \A i \in 1..Len(e.out) : e.out[i] \in 1..Len(e.key)
                   THEN IF IF e.reverse THEN Descending(e.out, Leq)
                                        ELSE Ascending(e.out, Leq)
                        THEN IF \A i \in 1..Len(e.in) :
                                   Equals(e, e.in, leq, e.in[i])
                                   = Equals(e, e.out, leq, e.in[i])
                             THEN {} ELSE {"V02.stable"}
                        ELSE {"V02.order"}
                   ELSE {"V02.items"})
MostBad(e) ==
    LET leq == LeqBy(e)
    IN  IF e.st # "ok" THEN {"V02.raises"}
        ELSE IF ~ \E i \in 1..Len(e.in) : e.in[i] = e.out THEN {"V02.most_item"}
        ELSE IF \A i \in 1..Len(e.in) : leq[e.in[i], e.out] THEN {}
             ELSE {"V02.most"}

Bad(e) == CASE e.ev = "cmp"  -> CmpBad(e)
            [] e.ev = "sort" -> SortBad(e)
            [] e.ev = "most" -> MostBad(e)
            [] OTHER -> {"hang"}

VARIABLES l, bad
INSTANCE TraceLoop
=============================================================================
