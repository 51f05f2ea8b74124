------------------------------- MODULE DocGen -------------------------------
(***************************************************************************)
(* The documentation of a schema: its pages.  A page is                    *)
(*   [path, kind, title, name, crumbs, def, comment, members, variants,    *)
(*    next, rows]                                                          *)
(* path: the directories and the file; crumbs: links to the modules around *)
(* it, [text, href] with the href split at its slashes; def: the printed   *)
(* definition; comments as paragraphs of lines; members [name, ty, id,     *)
(* comment, size]; variants [name, id, comment, members]; next: the        *)
(* suggested numbers; rows: what a module lists,                           *)
(* [sec, name, href, comment].                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Schema
LOCAL INSTANCE TLC
LOCAL INSTANCE IOUtils
Sizes == INSTANCE Meta WITH Types <- <<>>, DevTupleSize <- FALSE, DevSkip <- FALSE

RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Select(s, P(_)) == LET RECURSIVE go(_)
                       go(i) == IF i > Len(s) THEN <<>> ELSE (IF P(s[i]) THEN <<s[i]>> ELSE <<>>) \o go(i + 1)
                   IN  go(1)
RECURSIVE Number(_)
Number(ds) == IF ds = <<>> THEN 0 ELSE Head(ds) + (128 * Number(Tail(ds)))

----------------------------------------------------------------------------
\* Text

Plain == {"bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "string", "bytes"}
Wrapped == [vec |-> "vec", set |-> "hash_set", opt |-> "option", nz |-> "non_zero"]
Wrappers == DOMAIN Wrapped
Special == [strref |-> "&string", bytesref |-> "&bytes", boxstr |-> "box<string>", boxbytes |-> "box<bytes>"]
Specials == DOMAIN Special

RECURSIVE Ty(_)
Ty(t) ==
    CASE t.k \in Plain -> t.k
      [] t.k \in Specials -> Special[t.k]
      [] t.k \in Wrappers -> Wrapped[t.k] \o "<" \o Ty(t.e) \o ">"
      [] t.k = "map" -> "hash_map<" \o Ty(t.a) \o ", " \o Ty(t.b) \o ">"
      [] t.k = "tup" -> "(" \o Join([i \in 1..Len(t.es) |-> Ty(t.es[i])], ", ") \o ")"
      [] t.k = "arr" -> "[" \o Ty(t.e) \o "; " \o t.n \o "]"
      [] t.k = "ext" -> Join(t.path \o <<t.name>>, "::")
                        \o (IF t.ts = <<>> THEN "" ELSE "<" \o Join([i \in 1..Len(t.ts) |-> Ty(t.ts[i])], ", ") \o ">")

Gen(g) == IF g = <<>> THEN "" ELSE "<" \o Join(g, ", ") \o ">"
Ids(items) == LET a == Assign(items) IN [i \in 1..Len(items) |-> ToString(Number(a[i]))]

Fields(f, ind) ==
    LET id == Ids(f.fs) IN
    CASE f.k = "unit" -> ""
      [] f.k = "unnamed" -> "(" \o Join([i \in 1..Len(f.fs) |-> Ty(f.fs[i].ty) \o " @" \o id[i]], ", ") \o ")"
      [] f.k = "named" -> " {\n" \o Join([i \in 1..Len(f.fs) |-> ind \o "    " \o f.fs[i].name \o ": " \o Ty(f.fs[i].ty) \o " @" \o id[i] \o ",\n"], "") \o ind \o "}"

Printed(d) ==
    CASE d.d = "struct" -> "struct " \o d.name \o Gen(d.gen) \o Fields(d.fields, "")
      [] d.d = "enum" -> LET id == Ids(d.variants) IN
            "enum " \o d.name \o Gen(d.gen) \o " {\n"
            \o Join([i \in 1..Len(d.variants) |-> "    " \o d.variants[i].name \o Fields(d.variants[i].fields, "    ") \o " @" \o id[i] \o ",\n"], "") \o "}"
      [] d.d = "alias" -> "type " \o d.name \o Gen(d.gen) \o " = " \o Ty(d.ty) \o ";"
      [] d.d = "const" -> "const " \o d.name \o ": " \o Ty(d.ty) \o " = "

\* Lines in paragraphs, separated by blank lines
RECURSIVE Paras(_)
Blank(x) == x \in {"", " ", "  ", "   "}
Until(c) == IF \E i \in 1..Len(c) : Blank(c[i]) THEN (CHOOSE i \in 1..Len(c) : Blank(c[i]) /\ \A j \in 1..(i - 1) : ~Blank(c[j])) - 1 ELSE Len(c)
Paras(c) == IF c = <<>> THEN <<>>
            ELSE IF Blank(Head(c)) THEN Paras(Tail(c))
            ELSE <<SubSeq(c, 1, Until(c))>> \o Paras(SubSeq(c, Until(c) + 1, Len(c)))
\* what stands for a comment where there is little room
Brief(c) == LET n == Until(c) IN IF n = 0 THEN <<>> ELSE <<SubSeq(c, 1, n)>>

----------------------------------------------------------------------------
\* Pages

Kind == [struct |-> "Struct", enum |-> "Enum", alias |-> "Alias", const |-> "Constant", mod |-> "Module"]
Section == [struct |-> "Structs", enum |-> "Enums", alias |-> "Aliases", const |-> "Constants", mod |-> "Modules"]
Prefix == [struct |-> "struct.", enum |-> "enum.", alias |-> "alias.", const |-> "constant."]
File(d) == IF d.d = "mod" THEN <<d.name, "index.html">> ELSE <<Prefix[d.d] \o d.name \o ".html">>

\* Where a link on the page at a path leads
RECURSIVE Follow(_, _)
Follow(dir, segs) ==
    IF segs = <<>> THEN dir
    ELSE IF Head(segs) = ".." THEN (IF dir = <<>> THEN <<"outside">> ELSE Follow(SubSeq(dir, 1, Len(dir) - 1), Tail(segs)))
    ELSE Follow(Append(dir, Head(segs)), Tail(segs))
Target(page, href) == Follow(SubSeq(page.path, 1, Len(page.path) - 1), href)

IsMembers(ms, f) ==
    LET id == Ids(f.fs) IN
    /\ Len(ms) = Len(f.fs)
    /\ \A i \in 1..Len(f.fs) : /\ (f.k = "named" => ms[i].name = f.fs[i].name)
                               /\ ms[i].ty = Ty(f.fs[i].ty) /\ ms[i].id = "@" \o id[i]
                               /\ ms[i].comment = Paras(f.fs[i].comment)
                               /\ Sizes!SizeOf(ms[i].size, f.fs[i].ty, atoi, ms[i].big)
IsVariants(vs, d) ==
    LET id == Ids(d.variants) IN
    /\ Len(vs) = Len(d.variants)
    /\ \A i \in 1..Len(vs) : /\ vs[i].name = d.variants[i].name /\ vs[i].id = "@" \o id[i]
                             /\ vs[i].comment = Paras(d.variants[i].comment)
                             /\ IsMembers(vs[i].members, d.variants[i].fields)

\* The modules around a page, each with a link to its page.  path: their names.
IsCrumbs(page, path) ==
    /\ Len(page.crumbs) = Len(path)
    /\ \A i \in 1..Len(path) : /\ page.crumbs[i].text = path[i]
                               /\ Target(page, page.crumbs[i].href) = SubSeq(path, 1, i) \o <<"index.html">>

Listed(defs) == Select(defs, LAMBDA d : d.d # "use")
IsRows(page, path, defs) ==
    LET ds == Listed(defs) IN
    /\ Len(page.rows) = Len(ds)
    /\ \A i \in 1..Len(ds) : \E j \in 1..Len(ds) :
        /\ page.rows[j].sec = Section[ds[i].d] /\ page.rows[j].name = ds[i].name
        /\ page.rows[j].comment = Brief(ds[i].comment)
        /\ Target(page, page.rows[j].href) = path \o File(ds[i])

IsOf(page, d, path) ==
    /\ page.kind = Kind[d.d] /\ page.title = d.name \o " - Mabo" /\ page.name = d.name /\ page.comment = Paras(d.comment)
    /\ IsCrumbs(page, path)
    /\ CASE d.d = "mod" -> IsRows(page, Append(path, d.name), d.defs)
         [] d.d = "const" -> page.def = Printed(d) /\ page.lit = d.lit
         [] OTHER -> page.def = Printed(d)
    /\ IF d.d = "struct" THEN IsMembers(page.members, d.fields) /\ page.next = (IF d.fields.k = "unit" THEN <<>> ELSE <<ToString(Number(Next1(Assign(d.fields.fs))))>>)
       ELSE page.members = <<>>
    /\ IF d.d = "enum" THEN IsVariants(page.variants, d) ELSE page.variants = <<>>
    /\ d.d # "mod" => page.rows = <<>>

IsIndex(page, name, comment, defs) ==
    /\ page.kind = "Schema" /\ page.title = name \o " - Mabo" /\ page.name = name /\ page.comment = Paras(comment)
    /\ page.crumbs = <<>> /\ IsRows(page, <<name>>, defs) /\ page.members = <<>> /\ page.variants = <<>>

\* Every page there should be, as [path, at, d]: the definition and the modules it is in
RECURSIVE Wanted(_, _)
Wanted(defs, path) ==
    Cat([i \in 1..Len(defs) |->
        IF defs[i].d = "use" THEN <<>>
        ELSE <<[path |-> path \o File(defs[i]), at |-> path, d |-> defs[i]]>>
             \o (IF defs[i].d = "mod" THEN Wanted(defs[i].defs, Append(path, defs[i].name)) ELSE <<>>)])

Paths(name, defs) == <<<<name, "index.html">>>> \o [i \in 1..Len(Wanted(defs, <<name>>)) |-> Wanted(defs, <<name>>)[i].path]

Documents(pages, name, comment, defs) ==
    LET want == Wanted(defs, <<name>>)
        At(p) == {i \in 1..Len(pages) : pages[i].path = p}
    IN  /\ Len(pages) = Len(want) + 1
        /\ \E i \in At(<<name, "index.html">>) : IsIndex(pages[i], name, comment, defs)
        /\ \A k \in 1..Len(want) : \E i \in At(want[k].path) : IsOf(pages[i], want[k].d, want[k].at)
        /\ \A i, j \in 1..Len(pages) : i # j => pages[i].path # pages[j].path
=============================================================================
