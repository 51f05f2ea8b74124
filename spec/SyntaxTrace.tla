----------------------------- MODULE SyntaxTrace -----------------------------
(***************************************************************************)
(* Judges what the parser and the formatter did with texts.                *)
(*   [op |-> "parse", text, floats, tree, out]                             *)
(*       tree = <<schema>> when the text was written from a schema         *)
(*       out = [ast, ranges] or [labels] (a rejection with its positions)  *)
(*             or [broken] (a panic, a crash or no answer)                 *)
(*   [op |-> "fmt", ast, fmt, floats, out]  the text the formatter makes   *)
(*       of a schema, and what parsing that text does                      *)
(*   [op |-> "same", trees, fmts]  texts of a schema in several layouts    *)
(*       formatted, and the results formatted again                        *)
(***************************************************************************)
EXTENDS Syntax, Json, IOUtils

Prop == IOEnv.PROP
Chunks == atoi(IOEnv.CHUNKS)
Events == ndJsonDeserialize(IOEnv.TRACE)
N0 == Len(Events)

Has(r, f) == f \in DOMAIN r

\* F03: the schema that was written is the one that is found
Finds(e) ==
    /\ Assert(Denotes(e.tree[1], e.text, e.floats), "the text was not laid out as specified")
    /\ Has(e.out, "ast") /\ e.out.ast = e.tree[1]

\* known finding: the end of the label of a failed declaration is counted from its start, not from the start of the text, and so
\* may fall into the middle of a character
InText(t, l) == l[2] >= 0 /\ Boundary(t, l[1]) /\ Boundary(t, l[1] + l[2])
RelativeEnd(t, l) ==
    LET p == l[1] + (l[1] + l[2]) IN
    /\ l[2] > 0 /\ Boundary(t, l[1])
    /\ p \in 1..Len(t) /\ t[p] \in {44, 10, 125, 59}
    /\ \E d \in {{44}, {10}, {125}, {59}} : t[p] \in d /\ \A q \in (l[1] + 1)..(p - 1) : t[q] \notin d
OnlyRelative(e) == Has(e.out, "labels") /\ \A i \in 1..Len(e.out.labels) : InText(e.text, e.out.labels[i]) \/ RelativeEnd(e.text, e.out.labels[i])

\* F04: whatever is accepted is what the text denotes; a rejection points into the text
Sound(e) ==
    CASE Has(e.out, "ast") -> Denotes(e.out.ast, e.text, e.floats)
      [] Has(e.out, "labels") ->
            \A i \in 1..Len(e.out.labels) : InText(e.text, e.out.labels[i])
      [] OTHER -> FALSE

\* F05: every range is the one of the element
Exact(e) ==
    Has(e.out, "ast") =>
        LET r == Reading(e.out.ast, e.text, e.floats) IN
        r.p > 0 /\ Ranges(r) = {e.out.ranges[i] : i \in 1..Len(e.out.ranges)}

\* F01: the formatted text denotes the same schema, and the parser agrees
Preserves(e) ==
    /\ Has(e.out, "ast") /\ e.out.ast = e.ast
    /\ Denotes(e.ast, e.fmt, e.floats)

\* F02: one text for one schema, and formatting it again is the identity
Stable(e) == \A i \in 1..Len(e.fmts) : e.fmts[i] = e.fmts[1] /\ e.again[i] = e.fmts[i]

Accept(e) ==
    CASE Prop = "F01" -> Preserves(e)
      [] Prop = "F02" -> Stable(e)
      [] Prop = "F03" -> Finds(e)
      [] Prop = "F04" -> Sound(e)
      [] Prop = "F05" -> Exact(e)

Tag(e) ==
    IF Prop = "F04" /\ OnlyRelative(e) THEN "finding:relative-end"
    ELSE IF Has(e, "tag") THEN e.tag ELSE "-"

VARIABLES c, l
vars == <<c, l>>
Lo(i) == ((i - 1) * N0) \div Chunks + 1
Hi(i) == (i * N0) \div Chunks
TraceInit == c \in 1..Chunks /\ l = Lo(c)
TraceNext ==
    /\ l <= Hi(c)
    /\ IF Accept(Events[l]) THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Tag(Events[l]))
    /\ l' = l + 1
    /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("distinct") = N0 + Chunks
=============================================================================
