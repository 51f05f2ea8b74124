------------------------------ MODULE SchemaTrace ------------------------------
(***************************************************************************)
(* Judges what the compiler made of schemas against Schema.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Schema, CodeGen

Events == ndJsonDeserialize(IOEnv.TRACE)
Prop   == IOEnv.PROP
Chunks == atoi(IOEnv.CHUNKS)
N      == Len(Events)

Has(r, f) == f \in DOMAIN r

----------------------------------------------------------------------------
\* Numbers as all outputs see them: the tree after lowering, item by item

SameFields(f, o) ==
    LET ns == Assign(f.fs) IN
    /\ Len(o.fs) = Len(f.fs)
    /\ \A i \in 1..Len(ns) : o.fs[i].id = ns[i] /\ (f.k = "named" => o.fs[i].name = f.fs[i].name)

RECURSIVE Numbered(_, _)
Numbered(defs, out) ==
    /\ Len(out) = Len(defs)
    /\ \A i \in 1..Len(defs) :
        LET d == defs[i]
            o == out[i]
        IN  /\ o.d = d.d
            /\ CASE d.d = "struct" -> SameFields(d.fields, o.fields)
                 [] d.d = "enum" ->
                        LET ns == Assign(d.variants) IN
                        /\ Len(o.variants) = Len(ns)
                        /\ \A j \in 1..Len(ns) : o.variants[j].id = ns[j] /\ o.variants[j].name = d.variants[j].name
                                                 /\ SameFields(d.variants[j].fields, o.variants[j].fields)
                 [] d.d = "mod" -> Numbered(d.defs, o.defs)
                 [] OTHER -> TRUE

\* nothing can be suggested once the largest number is taken
Suggestion(ns, o) == MaxId \in SeqSet(ns) \/ o = <<Next1(ns)>>
SuggestFields(f, o) == IF f.k = "unit" THEN o.next = <<>> ELSE Suggestion(Assign(f.fs), o.next)

RECURSIVE Suggested(_, _)
Suggested(defs, out) ==
    \A i \in 1..Len(defs) :
        LET d == defs[i]
            o == out[i]
        IN  CASE d.d = "struct" -> SuggestFields(d.fields, o.fields)
              [] d.d = "enum" -> /\ Suggestion(Assign(d.variants), o.next)
                                 /\ \A j \in 1..Len(d.variants) : SuggestFields(d.variants[j].fields, o.variants[j].fields)
              [] d.d = "mod" -> Suggested(d.defs, o.defs)
              [] OTHER -> TRUE

----------------------------------------------------------------------------
\* Verdicts

\* b within the text of item i and of no other item of the scope
PointsAt(b, items, i) ==
    LET meets(x) == b[1] < x.at[2] /\ x.at[1] < b[2]
    IN  meets(items[i]) /\ \A k \in 1..Len(items) : k # i => ~meets(items[k])

ReportedId(sc, o) ==
    /\ sc.s = o.s
    /\ LET ns == Assign(sc.items) IN
       \E j \in Repeats(ns) : \E i \in 1..(j - 1) :
            /\ ns[i] = ns[j] /\ ns[i] = o.id
            /\ PointsAt(o.a, sc.items, i) /\ PointsAt(o.b, sc.items, j)

Kind(e) == IF Has(e.out, "ok") THEN "ok" ELSE IF Has(e.out, "verr") THEN e.out.verr.k ELSE "broken"

Verdicts(e, kind, Proper(_)) ==
    LET k == Kind(e)
        ps == Problems(e.defs)
    IN  CASE k = "ok" -> kind \intersect ps = {}
          [] k = "broken" -> FALSE
          [] k \in kind -> k \in ps /\ Proper(e.out.verr)
          \* some other problem: it must be one of the schema
          [] OTHER -> k \in ps

UniqueIds(e) ==
    LET P(o) == \E i \in DupIds(e.defs) : ReportedId(IdScopes(e.defs)[i], o)
    IN  Verdicts(e, {"dup_id"}, P)

UniqueNames(e) ==
    LET P(o) == \E i \in DupNames(e.defs) :
                    LET sc == NameScopes(e.defs)[i] IN
                    sc.s = o.s /\ \E j \in Repeats(sc.names) : sc.names[j] = o.n
                /\ o.sa = o.n /\ o.sb = o.n /\ o.a[1] < o.b[1]
    IN  Verdicts(e, {"dup_name"}, P)

GenericsTuples(e) ==
    LET a == Flatten(e.defs)
        P(o) == CASE o.k = "gen_dup" -> \E i \in 1..Len(a) : o.n \in RepeatedGenerics(a[i])
                  [] o.k = "gen_unused" -> \E i \in 1..Len(a) : o.n \in UnusedGenerics(a[i])
                  [] o.k = "tuple" -> TRUE
    IN  Verdicts(e, {"gen_dup", "gen_unused", "tuple"}, P)

Resolves(e) ==
    LET v == Verdict(e.world) IN
    CASE Has(e.out, "ok") -> v \in {"ok", "open"}
      [] Has(e.out, "rerr") -> v \in {"bad", "open"}
      [] OTHER -> FALSE

\* An accepted schema is generated, its items are the declared ones, and they compile
Generates(e) ==
    /\ Has(e.out, "items") /\ Declares(e.defs, e.out.items, e.b)
    /\ e.compiles

Accept(e) ==
    CASE Prop = "C01" -> IF e.op = "simplify"
                         THEN Has(e.out, "defs") /\ Numbered(e.defs, e.out.defs)
                         ELSE (Kind(e) = "dup_id" => UniqueIds(e)) /\ (Kind(e) = "ok" => UniqueIds(e))
      [] Prop = "C02" -> UniqueIds(e)
      [] Prop = "C03" -> UniqueNames(e)
      [] Prop = "C04" -> GenericsTuples(e)
      [] Prop = "C05" -> Resolves(e)
      [] Prop = "C06" -> Generates(e)
      [] Prop = "M02" -> Has(e.out, "defs") /\ Suggested(e.defs, e.out.defs)

Tag(e) == IF Has(e, "tag") THEN e.tag ELSE "-"

VARIABLES c, l
vars == <<c, l>>
Lo(i) == ((i - 1) * N) \div Chunks + 1
Hi(i) == (i * N) \div Chunks
TraceInit == c \in 1..Chunks /\ l = Lo(c)
TraceNext ==
    /\ l <= Hi(c)
    /\ IF Accept(Events[l]) THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Tag(Events[l]))
    /\ l' = l + 1
    /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("distinct") = N + Chunks
=============================================================================
