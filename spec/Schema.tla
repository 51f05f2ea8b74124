-------------------------------- MODULE Schema --------------------------------
(***************************************************************************)
(* The static meaning of schemas: numbering of fields and variants, the    *)
(* scopes names and numbers have to be unique in, generics, tuple sizes,   *)
(* and what a type reference denotes in a set of schemas.                  *)
(*                                                                         *)
(* A schema is a sequence of definitions                                   *)
(*   [d |-> "struct", name, gen, fields]   fields = [k, fs]                *)
(*   [d |-> "enum",   name, gen, variants] variant = [name, id, fields]    *)
(*   [d |-> "alias",  name, gen, ty]   [d |-> "const", name, ty]           *)
(*   [d |-> "mod",    name, defs]      [d |-> "use", segs, elem]           *)
(* with field = [name, ty, id] and id = <<>> or <<number>>.  Numbers are   *)
(* sequences of base 128 digits, least significant first, zero is <<>>.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SeqSet(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

----------------------------------------------------------------------------
\* Numbers

MaxId == <<127, 127, 127, 127, 15>>

RECURSIVE Inc(_)
Inc(d) ==
    IF d = <<>> THEN <<1>>
    ELSE IF d[1] < 127 THEN <<d[1] + 1>> \o Tail(d)
    ELSE <<0>> \o Inc(Tail(d))

\* There is nothing beyond the largest number: the next one clashes with it
Succ(d) == IF d = MaxId THEN d ELSE Inc(d)

RECURSIVE Less(_, _)
Less(a, b) ==
    IF Len(a) # Len(b) THEN Len(a) < Len(b)
    ELSE IF a = <<>> THEN FALSE
    ELSE LET n == Len(a) IN
         IF a[n] # b[n] THEN a[n] < b[n] ELSE Less(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1))

Assign(items) ==
    LET f[i \in 1..Len(items)] ==
            IF items[i].id # <<>> THEN items[i].id[1]
            ELSE IF i = 1 THEN <<1>>
            ELSE Succ(f[i - 1])
    IN  [i \in 1..Len(items) |-> f[i]]

RECURSIVE Largest(_)
Largest(ns) ==
    IF Len(ns) = 1 THEN ns[1]
    ELSE LET r == Largest(Tail(ns)) IN IF Less(r, ns[1]) THEN ns[1] ELSE r

\* The number to suggest for another item
Next1(ns) == IF ns = <<>> THEN <<1>> ELSE Succ(Largest(ns))

----------------------------------------------------------------------------
\* Scopes

RECURSIVE Flatten(_)
\* every definition at any depth, modules included
Flatten(defs) ==
    Cat([i \in 1..Len(defs) |->
            IF defs[i].d = "mod" THEN <<defs[i]>> \o Flatten(defs[i].defs) ELSE <<defs[i]>>])

IdScopesOf(d) ==
    CASE d.d = "struct" -> <<[s |-> d.fields.k, items |-> d.fields.fs]>>
      [] d.d = "enum"   -> <<[s |-> "variant", items |-> d.variants]>>
                           \o [i \in 1..Len(d.variants) |-> [s |-> d.variants[i].fields.k, items |-> d.variants[i].fields.fs]]
      [] OTHER -> <<>>

IdScopes(defs) == LET a == Flatten(defs) IN Cat([i \in 1..Len(a) |-> IdScopesOf(a[i])])

DefName(d) == IF d.d = "use" THEN (IF d.elem # <<>> THEN d.elem[1] ELSE d.segs[Len(d.segs)]) ELSE d.name

NameScopes(defs) ==
    LET a == Flatten(defs)
        names(xs) == [i \in 1..Len(xs) |-> xs[i].name]
        fields(f) == IF f.k = "named" THEN <<[s |-> "field", names |-> names(f.fs)]>> ELSE <<>>
        defnames(ds) == <<[s |-> "module", names |-> [i \in 1..Len(ds) |-> DefName(ds[i])]]>>
        of(d) ==
            CASE d.d = "struct" -> fields(d.fields)
              [] d.d = "enum" -> <<[s |-> "variant", names |-> names(d.variants)]>>
                                 \o Cat([i \in 1..Len(d.variants) |-> fields(d.variants[i].fields)])
              [] d.d = "mod" -> defnames(d.defs)
              [] OTHER -> <<>>
    IN  defnames(defs) \o Cat([i \in 1..Len(a) |-> of(a[i])])

Repeats(s) == {i \in 1..Len(s) : \E j \in 1..(i - 1) : s[j] = s[i]}

----------------------------------------------------------------------------
\* Types

Inner(t) ==
    CASE t.k \in {"vec", "set", "opt", "nz", "arr"} -> <<t.e>>
      [] t.k = "map" -> <<t.a, t.b>>
      [] t.k = "tup" -> t.es
      [] t.k = "ext" -> t.ts
      [] OTHER -> <<>>

RECURSIVE Parts(_)
\* the type and everything inside of it
Parts(t) == {t} \cup UNION {Parts(Inner(t)[i]) : i \in 1..Len(Inner(t))}

Mentions(t, g) == \E p \in Parts(t) : p.k = "ext" /\ p.path = <<>> /\ p.name = g /\ p.ts = <<>>

FieldTypes(d) ==
    CASE d.d = "struct" -> [i \in 1..Len(d.fields.fs) |-> d.fields.fs[i].ty]
      [] d.d = "enum" -> Cat([i \in 1..Len(d.variants) |->
                            [j \in 1..Len(d.variants[i].fields.fs) |-> d.variants[i].fields.fs[j].ty]])
      [] OTHER -> <<>>
AllTypes(d) == IF d.d \in {"alias", "const"} THEN <<d.ty>> ELSE FieldTypes(d)

TupleSizes(d) == {Len(p.es) : p \in {q \in UNION {Parts(AllTypes(d)[i]) : i \in 1..Len(AllTypes(d))} : q.k = "tup"}}

\* Generics are declared by structs and enums only (an alias is free to leave its own unused)
GenericsOf(d) == IF d.d \in {"struct", "enum"} THEN d.gen ELSE <<>>
UnusedGenerics(d) == {g \in SeqSet(GenericsOf(d)) : \A i \in 1..Len(FieldTypes(d)) : ~Mentions(FieldTypes(d)[i], g)}
RepeatedGenerics(d) == {GenericsOf(d)[i] : i \in Repeats(GenericsOf(d))}

----------------------------------------------------------------------------
\* Validity of a single schema

DupIds(defs)   == {i \in 1..Len(IdScopes(defs)) : Repeats(Assign(IdScopes(defs)[i].items)) # {}}
DupNames(defs) == {i \in 1..Len(NameScopes(defs)) : Repeats(NameScopes(defs)[i].names) # {}}

Problems(defs) ==
    LET a == Flatten(defs)
        some(P(_)) == \E i \in 1..Len(a) : P(a[i])
        gd(d) == RepeatedGenerics(d) # {}
        gu(d) == UnusedGenerics(d) # {}
        tu(d) == \E n \in TupleSizes(d) : n < 2 \/ n > 12
    IN  (IF DupIds(defs) # {} THEN {"dup_id"} ELSE {})
        \cup (IF DupNames(defs) # {} THEN {"dup_name"} ELSE {})
        \cup (IF some(gd) THEN {"gen_dup"} ELSE {})
        \cup (IF some(gu) THEN {"gen_unused"} ELSE {})
        \cup (IF some(tu) THEN {"tuple"} ELSE {})

Valid(defs) == Problems(defs) = {}

----------------------------------------------------------------------------
\* References between schemas.  A world is a sequence of [name, defs].

Missing == [ok |-> FALSE, defs |-> <<>>]

\* modules along a path, relative to some definitions
RECURSIVE Descend(_, _)
Descend(defs, path) ==
    IF path = <<>> THEN [ok |-> TRUE, defs |-> defs]
    ELSE LET ms == {i \in 1..Len(defs) : defs[i].d = "mod" /\ defs[i].name = path[1]}
         IN  IF ms = {} THEN Missing
             ELSE Descend(defs[CHOOSE i \in ms : TRUE].defs, Tail(path))

Named(defs, n) == {i \in 1..Len(defs) : defs[i].d \in {"struct", "enum", "alias", "const"} /\ defs[i].name = n}

\* what a name along a path denotes: nothing, something unusable, or a type with some generics
Denotes(defs, path, n) ==
    LET m == Descend(defs, path) IN
    IF ~m.ok THEN [k |-> "nothing"]
    ELSE LET c == Named(m.defs, n) IN
         IF c = {} THEN [k |-> "nothing"]
         ELSE LET d == m.defs[CHOOSE i \in c : TRUE] IN
              IF d.d \in {"struct", "enum"} THEN [k |-> "type", arity |-> Len(d.gen)] ELSE [k |-> "unusable"]

Schemas(world, n) == {i \in 1..Len(world) : world[i].name = n}

ImportOk(world, u) ==
    LET c == Schemas(world, u.segs[1]) IN
    /\ c # {}
    /\ LET defs == world[CHOOSE i \in c : TRUE].defs
       IN  IF u.elem = <<>> THEN Descend(defs, Tail(u.segs)).ok
           ELSE Denotes(defs, Tail(u.segs), u.elem[1]).k = "type"

\* what the reference denotes by way of this import
ByImport(world, u, t) ==
    LET c == Schemas(world, u.segs[1]) IN
    IF c = {} THEN [k |-> "nothing"]
    ELSE LET defs == world[CHOOSE i \in c : TRUE].defs IN
         IF u.elem # <<>>
         THEN (IF t.path = <<>> /\ u.elem[1] = t.name THEN Denotes(defs, Tail(u.segs), t.name) ELSE [k |-> "nothing"])
         ELSE (IF t.path # <<>> /\ t.path[1] = u.segs[Len(u.segs)]
               THEN Denotes(defs, Tail(u.segs) \o Tail(t.path), t.name)
               ELSE [k |-> "nothing"])

Uses(defs) == {defs[i] : i \in {j \in 1..Len(defs) : defs[j].d = "use"}}
AllUses(defs) == Uses(Flatten(defs))

Fits(x, t) == x.k = "type" /\ x.arity = Len(t.ts)

\* chain: the definitions of the module the reference stands in, and those around it, inner first
RefVerdict(world, root, chain, gens, t) ==
    IF t.path = <<>> /\ t.ts = <<>> /\ t.name \in gens THEN "ok"
    ELSE
    LET local == Denotes(chain[1], t.path, t.name)
        near  == {ByImport(world, u, t) : u \in UNION {Uses(chain[i]) : i \in 1..Len(chain)}}
        far   == {ByImport(world, u, t) : u \in AllUses(root)}
        hits(S) == {x \in S : x.k # "nothing"}
    IN  IF Fits(local, t) THEN "ok"
        \* hidden behind a local one that does not fit: whether imports count is left open
        ELSE IF local.k # "nothing"
             THEN (IF \E x \in near \cup far : Fits(x, t) THEN "open" ELSE "bad")
        ELSE IF hits(near) # {} /\ \A x \in hits(near) : Fits(x, t)
             \* two imports under one name, one of which leads nowhere
             THEN (IF \E u \in UNION {Uses(chain[i]) : i \in 1..Len(chain)} :
                        u.elem = <<>> /\ t.path # <<>> /\ u.segs[Len(u.segs)] = t.path[1] /\ ByImport(world, u, t).k = "nothing"
                   THEN "open" ELSE "ok")
        ELSE IF \E x \in near \cup far : Fits(x, t) THEN "open"
        ELSE "bad"

Refs(t) == {p \in Parts(t) : p.k = "ext"}

RECURSIVE ModuleVerdicts(_, _, _)
\* verdicts of all references below a module, given the chain of surrounding definitions
ModuleVerdicts(world, root, chain) ==
    LET defs == chain[1] IN
    UNION {
        LET d == defs[i] IN
        IF d.d = "mod" THEN ModuleVerdicts(world, root, <<d.defs>> \o chain)
        ELSE IF d.d \in {"struct", "enum"}
        THEN UNION {{RefVerdict(world, root, chain, SeqSet(d.gen), t) : t \in Refs(FieldTypes(d)[j])} : j \in 1..Len(FieldTypes(d))}
        ELSE IF d.d = "use" THEN (IF ImportOk(world, d) THEN {} ELSE {"bad"})
        ELSE {}
        : i \in 1..Len(defs)}

Verdict(world) ==
    LET vs == UNION {ModuleVerdicts(world, world[i].defs, <<world[i].defs>>) : i \in 1..Len(world)}
    IN  IF "bad" \in vs THEN "bad" ELSE IF "open" \in vs THEN "open" ELSE "ok"
=============================================================================
