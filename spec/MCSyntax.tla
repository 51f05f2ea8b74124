------------------------------- MODULE MCSyntax -------------------------------
(***************************************************************************)
(* Texts of small schemas: every construct, every gap of it laid out in    *)
(* every way while the others stay as they are.  Every text is printed     *)
(* together with the schema it denotes and the ranges of its elements.     *)
(***************************************************************************)
EXTENDS Syntax, Json, IOUtils

Theme == IOEnv.THEME
Deep == IOEnv.DEEP = "1"

vA == <<65>>        vB == <<66, 49, 120>>      vC == <<67>>
lA == <<97>>        lB == <<98, 95, 49>>       lC == <<117, 56>>
cA == <<88>>        cB == <<89, 95, 49>>
Line1 == <<104, 195, 188>>                         \* hue
Line2 == <<>>
Line3 == <<47, 32, 120, 226, 130, 172, 123>>     \* slashes, a euro sign, a brace

P(k) == [k |-> k]
Prims == {"bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64",
          "string", "strref", "bytes", "bytesref", "boxstr", "boxbytes"}
Ext(path, name, ts) == [k |-> "ext", path |-> path, name |-> name, ts |-> ts]
Basic == {P(k) : k \in Prims}
         \cup {Ext(<<>>, vA, <<>>), Ext(<<lA>>, <<65, 95>>, <<>>), Ext(<<lA, lB>>, vB, <<>>)}
Few == IF Deep THEN {P("u8"), P("boxstr"), P("strref"), Ext(<<lA>>, vB, <<>>)} ELSE {P("u8"), Ext(<<lA>>, vB, <<>>)}
Over(S) ==
    {[k |-> k, e |-> t] : k \in {"vec", "set", "opt", "nz"}, t \in S}
    \cup {[k |-> "map", a |-> a, b |-> b] : a \in S, b \in S}
    \cup {[k |-> "tup", es |-> <<a>>] : a \in S}
    \cup {[k |-> "tup", es |-> <<a, b>>] : a \in S, b \in S}
    \cup {[k |-> "arr", e |-> t, n |-> n] : t \in S, n \in {<<48>>, <<52, 50>>}}
    \cup {Ext(p, vA, <<a>>) : p \in {<<>>, <<lA>>}, a \in S}
    \cup {Ext(<<>>, vA, <<a, b>>) : a \in S, b \in S}
Nested == Over({P("u16"), [k |-> "vec", e |-> P("u8")], [k |-> "tup", es |-> <<P("u8"), P("i8")>>],
                [k |-> "arr", e |-> P("bool"), n |-> <<51>>], Ext(<<lB>>, vA, <<P("string")>>)})

Field(c, n, t, id) == [comment |-> c, name |-> n, ty |-> t, id |-> id]
U8 == P("u8")
Named(fs) == [k |-> "named", fs |-> fs]
Unnamed(fs) == [k |-> "unnamed", fs |-> fs]
Unit == [k |-> "unit", fs |-> <<>>]
Struct(c, as, n, g, f) == [d |-> "struct", comment |-> c, attrs |-> as, name |-> n, gen |-> g, fields |-> f]
Enum(c, as, n, g, vs) == [d |-> "enum", comment |-> c, attrs |-> as, name |-> n, gen |-> g, variants |-> vs]
Variant(c, n, f, id) == [comment |-> c, name |-> n, fields |-> f, id |-> id]
Mod(c, n, ds) == [d |-> "mod", comment |-> c, name |-> n, defs |-> ds]
Alias(c, n, g, t) == [d |-> "alias", comment |-> c, name |-> n, gen |-> g, ty |-> t]
Const(c, n, t, l) == [d |-> "const", comment |-> c, name |-> n, ty |-> t, lit |-> l]
Use(segs, e) == [d |-> "use", segs |-> segs, elem |-> e]
Sch(ds) == [comment |-> <<>>, defs |-> ds]
Id7 == << <<55>> >>
Id0 == << <<48>> >>
IdMax == << <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>> >>

FieldSets ==
    {Unit}
    \cup {Named(<<Field(c, lA, U8, i)>>) : c \in {<<>>, <<Line1>>, <<Line2, Line3>>}, i \in {<<>>, Id7, Id0, IdMax}}
    \cup {Named(<<Field(<<>>, lA, U8, i), Field(c, lC, P("bool"), j)>>) : c \in {<<>>, <<Line1>>}, i \in {<<>>, Id7}, j \in {<<>>, Id7}}
    \cup {Unnamed(<<Field(<<>>, <<>>, U8, i)>>) : i \in {<<>>, Id7}}
    \cup {Unnamed(<<Field(<<>>, <<>>, U8, i), Field(<<>>, <<>>, Ext(<<>>, vB, <<>>), j)>>) : i \in {<<>>, Id7}, j \in {<<>>, Id7}}

Lits == {[k |-> "bool", v |-> <<1>>], [k |-> "bool", v |-> <<0>>], [k |-> "int", v |-> <<0, 48>>], [k |-> "int", v |-> <<1, 49, 50>>],
         [k |-> "str", v |-> <<>>], [k |-> "str", v |-> <<97, 195, 188>>], [k |-> "str", v |-> <<34, 92, 10, 13, 9, 8, 12, 0, 47, 7>>],
         [k |-> "str", v |-> <<32, 120, 226, 130, 172, 240, 159, 153, 130>>],
         [k |-> "bytes", v |-> <<0>>], [k |-> "bytes", v |-> <<255, 7, 10>>]}
        \cup {[k |-> "int", v |-> <<n>> \o <<49, 55, 48, 49, 52, 49, 49, 56, 51, 52, 54, 48, 52, 54, 57, 50, 51, 49, 55, 51, 49, 54, 56, 55, 51, 48, 51, 55, 49, 53, 56, 56, 52, 49, 48, 53, 55, 50>> \o <<l>>] : n \in {0, 1}, l \in {55}}

Attr(n, v) == [name |-> n, v |-> v]
AU(n) == Attr(n, [k |-> "unit"])
AttrSets == {<<AU(lA)>>, <<AU(lA), AU(lB)>>, <<Attr(lA, [k |-> "single", lit |-> [k |-> "int", v |-> <<0, 49>>]])>>,
             <<Attr(lA, [k |-> "single", lit |-> [k |-> "str", v |-> <<93, 41>>]]), AU(lC)>>,
             <<Attr(lA, [k |-> "multi", attrs |-> <<AU(lB)>>]), Attr(lB, [k |-> "multi", attrs |-> <<AU(lB), Attr(lC, [k |-> "multi", attrs |-> <<AU(lA)>>])>>]), AU(lC)>>}

AnyDef == {Struct(<<>>, <<>>, vA, <<>>, Unit), Struct(<<Line1>>, <<>>, vA, <<>>, Unit), Struct(<<>>, <<AU(lA)>>, vB, <<>>, Named(<<Field(<<>>, lA, U8, <<>>)>>)),
           Enum(<<>>, <<>>, vC, <<>>, <<Variant(<<>>, vA, Unit, <<>>)>>), Alias(<<>>, vB, <<>>, U8), Alias(<<Line2, Line1>>, vB, <<>>, U8),
           Const(<<>>, cA, U8, [k |-> "int", v |-> <<0, 49>>]), Use(<<lA>>, <<>>), Mod(<<>>, lA, <<>>), Mod(<<Line1>>, lB, <<>>)}

Trees ==
    CASE Theme = "types" -> {Sch(<<Struct(<<>>, <<>>, vA, <<>>, Named(<<Field(<<>>, lA, t, <<>>)>>))>>) : t \in Basic \cup Over(Few) \cup (IF Deep THEN Nested ELSE {})}
                            \cup {Sch(<<Struct(<<>>, <<>>, vA, <<>>, Unnamed(<<Field(<<>>, <<>>, t, Id7)>>))>>) : t \in Over({U8})}
                            \cup {Sch(<<Alias(<<>>, vA, <<>>, t)>>) : t \in Over({U8})}
                            \cup {Sch(<<Const(<<>>, cA, t, [k |-> "bool", v |-> <<1>>])>>) : t \in Over({U8})}
      [] Theme = "fields" -> {Sch(<<Struct(<<>>, <<>>, vA, <<>>, f)>>) : f \in FieldSets}
                             \cup {Sch(<<Enum(<<>>, <<>>, vA, <<>>, <<Variant(c, vB, f, i)>>)>>) : f \in FieldSets, i \in {<<>>, Id7}, c \in IF Deep THEN {<<>>, <<Line1>>} ELSE {<<>>}}
                             \cup {Sch(<<Enum(<<>>, <<>>, vA, <<>>, <<Variant(<<>>, vB, Unit, i), Variant(c, vC, Unit, j)>>)>>) : c \in {<<>>, <<Line1, Line2>>}, i \in {<<>>, Id7}, j \in {<<>>, IdMax}}
      [] Theme = "defs" -> {Sch(<<d>>) : d \in AnyDef} \cup {Sch(<<a, b>>) : a \in AnyDef, b \in IF Deep THEN AnyDef ELSE {Struct(<<>>, <<>>, vA, <<>>, Unit), Use(<<lA>>, <<>>), Alias(<<Line2, Line1>>, vB, <<>>, U8)}}
                           \cup {[comment |-> c, defs |-> <<d>>] : c \in {<<Line1>>, <<Line2, Line3>>}, d \in AnyDef}
                           \cup {[comment |-> c, defs |-> <<>>] : c \in {<<>>, <<Line1>>}}
                           \cup {Sch(<<Mod(c, lA, <<d>>)>>) : c \in {<<>>, <<Line1>>}, d \in AnyDef}
                           \cup {Sch(<<Mod(<<>>, lA, <<Mod(<<>>, lB, <<d>>), d>>)>>) : d \in AnyDef}
                           \cup {Sch(<<Use(s, e)>>) : s \in {<<lA>>, <<lA, lB>>, <<lC, lC, lA>>}, e \in {<<>>, <<vA>>}}
                           \cup {Sch(<<Struct(<<>>, <<>>, vB, g, f)>>) : g \in {<<vA>>, <<vA, vC>>}, f \in {Unit, Unnamed(<<Field(<<>>, <<>>, U8, <<>>)>>)}}
                           \cup {Sch(<<Enum(<<>>, <<>>, vB, <<vA, vC>>, <<Variant(<<>>, vA, Unit, <<>>)>>)>>), Sch(<<Alias(<<>>, vB, <<vA>>, U8)>>)}
      [] Theme = "lits" -> {Sch(<<Const(<<>>, cB, U8, l)>>) : l \in Lits}
                           \cup {Sch(<<Struct(c, as, vA, <<>>, Unit)>>) : c \in {<<>>, <<Line1>>}, as \in AttrSets}
                           \cup {Sch(<<Mod(<<>>, lA, <<Enum(<<>>, as, vA, <<>>, <<Variant(<<>>, vA, Unit, <<>>)>>)>>)>>) : as \in AttrSets}

----------------------------------------------------------------------------
\* Spellings of a piece; the first one is tight, the second one tidy

RECURSIVE DecText(_)
DecText(n) == (IF n >= 10 THEN DecText(n \div 10) ELSE <<>>) \o <<48 + (n % 10)>>

Quote(b, f(_)) == <<34>> \o Join([i \in 1..Len(b) |-> f(b[i])]) \o <<34>>
Plain(c) == CASE c \in {34, 92} -> <<92, c>> [] OTHER -> <<c>>
Esc(c) == IF \E k \in DOMAIN Escapes : Escapes[k] = c /\ k # 47 THEN <<92, CHOOSE k \in DOMAIN Escapes : Escapes[k] = c /\ k # 47>> ELSE Plain(c)
Uni(c) == IF c < 128 THEN <<92, 117, 123, 48, 48>> \o <<48 + (c \div 16), IF (c % 16) < 10 THEN 48 + (c % 16) ELSE 55 + (c % 16)>> \o <<125>> ELSE <<c>>
Gap(c) == IF c < 128 THEN Esc(c) \o <<92, 10, 32, 9>> ELSE <<c>>

LitTexts(l) ==
    CASE l.k = "bool" -> <<IF l.v = <<1>> THEN True ELSE False>>
      [] l.k = "int" -> IF l.v[1] = 1 THEN << <<45>> \o Tail(l.v) >> ELSE <<Tail(l.v), <<43>> \o Tail(l.v)>>
      [] l.k = "str" -> <<Quote(l.v, Esc), Quote(l.v, Plain), Quote(l.v, Uni), Quote(l.v, Gap)>>
      [] l.k = "bytes" -> <<Join([i \in 1..Len(l.v) |-> (IF i = 1 THEN <<91>> ELSE <<44>>) \o DecText(l.v[i])]) \o <<93>>,
                            Join([i \in 1..Len(l.v) |-> (IF i = 1 THEN <<91, 10>> ELSE <<32, 44, 9>>) \o DecText(l.v[i])]) \o <<32, 44, 32, 93>>>>

Spell(pc) ==
    CASE pc[1] \in {"text", "tok"} -> <<pc[2]>>
      [] pc[1] \in {"name", "word"} -> <<pc[3]>>
      [] pc[1] = "sp" -> << <<>>, <<32>>, <<9, 32>> >>
      [] pc[1] = "sp1" -> << <<32>>, <<32>>, <<9>>, <<32, 9>> >>
      [] pc[1] = "ws" -> << <<>>, <<10>>, <<32>>, <<13, 10, 9>>, <<10, 10>> >>
      [] pc[1] = "trail" -> << <<>>, <<44>>, <<10, 44>> >>
      [] pc[1] = "next" -> << <<44>>, <<93, 10, 35, 91>>, <<32, 44>>, <<44, 32, 93, 10, 35, 91>> >>
      [] pc[1] = "dec" -> <<pc[2]>>
      [] pc[1] = "lit" -> LitTexts(pc[2])
      [] pc[1] = "line" -> << <<47, 47, 47>> \o pc[2], <<47, 47, 47, 32>> \o pc[2], <<47, 47, 47, 9, 32>> \o pc[2]>>
      [] pc[1] = "comments" -> << <<>>, <<>>, <<47, 47, 47, 32, 120, 10>> >>
      [] pc[1] = "attrs" -> << <<>>, <<>>, <<35, 91, 97, 40, 98, 44, 41, 44, 99, 61, 34, 93, 34, 93, 10>> >>
      [] OTHER -> << <<>> >>

Pick(pc, k) == LET s == Spell(pc) IN s[IF k <= Len(s) THEN k ELSE 1]

Lay(ps, base, at, k) == Join([i \in 1..Len(ps) |-> Pick(ps[i], IF i = at THEN k ELSE base)])

VARIABLES tree, base, at, k
vars == <<tree, base, at, k>>

Init == /\ tree \in Trees /\ base \in {1, 2} /\ at = 0 /\ k = 1
Next == /\ at = 0
        /\ \E i \in 1..Len(SchemaP(tree)), j \in 1..5 :
              LET n == Len(Spell(SchemaP(tree)[i])) IN
              /\ j <= n /\ j # base /\ at' = i /\ k' = j
        /\ UNCHANGED <<tree, base>>
Spec == Init /\ [][Next]_vars

\* Prints the texts; a layout that happens to denote something else is none of this tree
Emit ==
    LET t == Lay(SchemaP(tree), base, at, k)
        r == Reading(tree, t, <<>>)
    IN  IF r.p = 0 THEN TRUE
        ELSE PrintT("TEXT " \o ToJson([tree |-> tree, text |-> t, ranges |-> r.spans, base |-> base,
                                       kind |-> IF at = 0 THEN "none" ELSE SchemaP(tree)[at][1]]))

\* The tight and the tidy layout denote the tree whenever nothing runs together
Sane ==
    (at = 0 /\ base = 2) => LET t == Lay(SchemaP(tree), base, at, k) IN
        Denotes(tree, t, <<>>) \/ (tree.comment = <<>> /\ tree.defs # <<>> /\ tree.defs[1].d # "use" /\ tree.defs[1].comment # <<>>)

\* Every element starts and ends at a boundary between characters
Bounded ==
    LET t == Lay(SchemaP(tree), base, at, k)
        r == Reading(tree, t, <<>>)
    IN  r.p > 0 => \A s \in Ranges(r) : s[2] <= s[3] /\ Boundary(t, s[2]) /\ Boundary(t, s[3])
=============================================================================
