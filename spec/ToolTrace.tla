------------------------------- MODULE ToolTrace -------------------------------
(***************************************************************************)
(* Judges what was recorded of projects and of the command line tool:      *)
(*   [op |-> "load", tree, at, pats, texts, out]                           *)
(*       loading the project in the directory at of the tree;              *)
(*       out = [files] or [err]                                            *)
(*   [op |-> "discover", tree, at, out]                                    *)
(*       where entries of project files have the field pats;               *)
(*       out = [found |-> <<directory, files>> ...] or [err]               *)
(*   [op |-> "fmt" / "check", pool, tree, sel, texts, after, wrote, exit]  *)
(*       a command: what is at each path afterwards (0 is none of the      *)
(*       contents known), which paths were written to, its exit status     *)
(*   [op |-> "build", ..., b, outs, wrote, exit]                           *)
(*       outs: what each output written contains                           *)
(*   [op |-> "go", ..., package, strict, outs, exit]                        *)
(*       contents have a field go, the packages of the schema, [path, f]    *)
(*       with f standing for a text; outs has those written.  A strict one  *)
(*       may not lose packages to those of another schema.                  *)
(***************************************************************************)
EXTENDS Tool, Json, IOUtils

Gen == INSTANCE CodeGen

Prop == IOEnv.PROP
Chunks == atoi(IOEnv.CHUNKS)
Events == ndJsonDeserialize(IOEnv.TRACE)
N0 == Len(Events)

Has(r, f) == f \in DOMAIN r
Written(pats, texts) == Len(pats) = Len(texts) /\ \A i \in 1..Len(pats) : PText(pats[i]) = texts[i]
Distinct(s) == Cardinality(ToSet(s)) = Len(s)

\* what is excluded counts as excluded, however often an entry can be reached: each file is there once
Loads(e) ==
    /\ Assert(Written(e.pats, e.texts), "the patterns were not written as specified")
    /\ Has(e.out, "files") /\ Distinct(e.out.files)
    /\ ToSet(e.out.files) = SelectedIn(e.tree, e.at, e.pats)

\* directories with a project file, from a directory of the tree
DiscoveredIn(tree, at) ==
    LET es == Unfollowed(tree) IN
    {From(Parent(p), Len(at) + 1) : p \in {q \in Files(es) : Under(at, q) /\ Name(q) = TomlName
                                              /\ \A n \in (Len(at) + 1)..Len(q) : ~LeftOut(es, SubSeq(q, 1, n))}}
ProjectAt(tree, d) == tree[CHOOSE i \in 1..Len(tree) : tree[i].path = d \o <<TomlName>>]
Discovers(e) ==
    /\ Has(e.out, "found") /\ Distinct([i \in 1..Len(e.out.found) |-> e.out.found[i][1]])
    /\ {e.out.found[i][1] : i \in 1..Len(e.out.found)} = DiscoveredIn(e.tree, e.at)
    /\ \A i \in 1..Len(e.out.found) :
        LET d == e.at \o e.out.found[i][1]  fs == e.out.found[i][2] IN
        Distinct(fs) /\ ToSet(fs) = SelectedIn(e.tree, d, ProjectAt(e.tree, d).pats)

S(e) == Chosen(e.tree, e.sel)
Ready(e) == Assert(Written(e.sel.pats, e.texts), "the patterns were not written as specified")
After(e) == ToSet(e.after)

Formats(e) ==
    /\ Ready(e)
    /\ After(e) = Formatted(e.pool, e.tree, S(e))
    /\ ToSet(e.wrote) = Rewritten(e.pool, e.tree, S(e))

Fits3(exit, verdict) == IF exit = "ok" THEN verdict \in {"ok", "open"} ELSE exit = "bad" /\ verdict \in {"bad", "open"}

Checks(e) ==
    /\ Ready(e)
    /\ After(e) = Contents(e.tree) /\ e.wrote = <<>>
    /\ Fits3(e.exit, Checked(e.pool, e.tree, S(e)))

Builds(e) ==
    /\ Ready(e)
    /\ After(e) = Contents(e.tree)
    /\ Fits3(e.exit, Built(e.pool, e.tree, S(e)))
    /\ IF e.exit = "bad" THEN e.wrote = <<>>
       ELSE /\ {e.wrote[i] : i \in 1..Len(e.wrote)} = Produced(S(e)) /\ Distinct(e.wrote)
            /\ \A p \in S(e) : \E i \in 1..Len(e.outs) :
                    /\ e.outs[i].stem = Stem(p) /\ Has(e.outs[i], "items")
                    /\ Gen!Declares(e.pool[At(e.tree, p)].defs, e.outs[i].items, e.b)

Goes(e) ==
    LET chosen == S(e)
        v == Checked(e.pool, e.tree, chosen)
        packs(p) == ToSet(e.pool[At(e.tree, p)].go)
        want == UNION {packs(p) : p \in chosen}
    IN
    /\ Ready(e)
    /\ After(e) = Contents(e.tree)
    /\ Fits3(e.exit, IF v = "ok" /\ Cardinality(chosen) > 1 THEN "open" ELSE v)
    /\ IF e.exit = "bad" THEN e.outs = <<>>
       ELSE /\ \A p \in chosen : {x.path : x \in packs(p)} = GoFiles(e.package, e.pool[At(e.tree, p)].defs)
            /\ {x.path : x \in want} = {x.path : x \in ToSet(e.outs)}
            /\ Distinct([i \in 1..Len(e.outs) |-> e.outs[i].path])
            /\ ToSet(e.outs) \subseteq want
            /\ e.strict => want \subseteq ToSet(e.outs)

Accept(e) ==
    CASE Prop = "K01" -> IF e.op = "load" THEN Loads(e) ELSE Discovers(e)
      [] Prop = "K02" -> Formats(e)
      [] Prop = "K03" -> Checks(e)
      [] Prop = "K04" -> Builds(e)
      [] Prop = "K05" -> Goes(e)

Tag(e) == IF Has(e, "tag") THEN e.tag ELSE "-"

VARIABLES c, l
vars == <<c, l>>
Lo(i) == ((i - 1) * N0) \div Chunks + 1
Hi(i) == (i * N0) \div Chunks
TraceInit == c \in 1..Chunks /\ l = Lo(c)
TraceNext ==
    /\ l <= Hi(c)
    /\ IF Accept(Events[l]) THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Tag(Events[l]))
    /\ l' = l + 1
    /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("distinct") = N0 + Chunks
=============================================================================
