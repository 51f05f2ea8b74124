------------------------------- MODULE MCSchema -------------------------------
(***************************************************************************)
(* Schemas as they are written down, one declaration after the other.  TLC *)
(* explores every schema over small alphabets (one theme at a time), checks*)
(* what must hold between a schema and its extensions, and prints every    *)
(* schema so that it can be handed to the implementation.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Schema

Theme == IOEnv.THEME
Deep  == IOEnv.DEEP = "1"

U8 == [k |-> "u8"]
Ext(p, n, ts) == [k |-> "ext", path |-> p, name |-> n, ts |-> ts]
One(k, e) == [k |-> k, e |-> e]
Tup(n, e) == [k |-> "tup", es |-> [i \in 1..n |-> e]]
Fld(n, t, id) == [name |-> n, ty |-> t, id |-> id]
Named1(fs) == [k |-> "named", fs |-> fs]
Unnamed(fs) == [k |-> "unnamed", fs |-> fs]
Unit == [k |-> "unit", fs |-> <<>>]
Struct(n, g, f) == [d |-> "struct", name |-> n, gen |-> g, fields |-> f]
Enum(n, g, vs) == [d |-> "enum", name |-> n, gen |-> g, variants |-> vs]
Var(n, f, id) == [name |-> n, fields |-> f, id |-> id]
Alias(n, g, t) == [d |-> "alias", name |-> n, gen |-> g, ty |-> t]
Const(n, t) == [d |-> "const", name |-> n, ty |-> t]
Mod(n, ds) == [d |-> "mod", name |-> n, defs |-> ds]
Use(s, e) == [d |-> "use", segs |-> s, elem |-> e]

FN == <<"a", "b", "c", "d", "e">>
VN == <<"Va", "Vb", "Vc", "Vd", "Ve">>

----------------------------------------------------------------------------
\* ids: one scope is filled, in one of the places scopes exist in
IdChoices == {<<>>, <<<<1>>>>, <<<<2>>>>, <<<<3>>>>, << <<126, 127, 127, 127, 15>> >>, <<MaxId>>}
             \cup (IF Deep THEN {<< <<>> >>, <<<<5>>>>} ELSE {})
Places == {"named", "unnamed", "variant", "vnamed", "vunnamed", "inmod"}
Fields(n, ids) == [i \in 1..Len(ids) |-> Fld(IF n THEN FN[i] ELSE "", U8, ids[i])]
IdSchema(p, ids) ==
    CASE p = "named"   -> <<Struct("S", <<>>, Named1(Fields(TRUE, ids)))>>
      [] p = "unnamed" -> <<Struct("S", <<>>, Unnamed(Fields(FALSE, ids)))>>
      [] p = "variant" -> <<Enum("E", <<>>, [i \in 1..Len(ids) |-> Var(VN[i], IF i = 2 THEN Unnamed(<<Fld("", U8, <<>>)>>) ELSE Unit, ids[i])])>>
      [] p = "vnamed"  -> <<Enum("E", <<>>, <<Var("A", Unit, <<>>), Var("B", Named1(Fields(TRUE, ids)), <<>>)>>)>>
      [] p = "vunnamed" -> <<Enum("E", <<>>, <<Var("B", Unnamed(Fields(FALSE, ids)), <<>>), Var("C", Unnamed(Fields(FALSE, <<>> \o <<ids[1]>>)), <<>>)>>)>>
      [] p = "inmod"   -> <<Mod("m", <<Struct("S", <<>>, Named1(Fields(TRUE, <<ids[1]>>))),
                                       Mod("n", <<Struct("S", <<>>, Named1(Fields(TRUE, ids)))>>)>>)>>

----------------------------------------------------------------------------
\* names: definitions are added to the root or to its last module, items to the last definition
NameDefs ==
    {Struct(n, <<>>, Unit) : n \in {"A", "B"}} \cup {Enum("A", <<>>, <<Var("A", Unit, <<>>)>>)}
    \cup {Alias("A", <<>>, U8), Alias("B", <<>>, U8), Const("A", [k |-> "u8"]), Const("B", [k |-> "u8"])}
    \cup {Mod("a", <<>>), Mod("b", <<>>)}
    \cup {Use(<<"x", "a">>, <<>>), Use(<<"a">>, <<"A">>), Use(<<"b", "a">>, <<"B">>)}
NameItems(d) ==
    CASE d.d = "struct" -> IF d.fields.k = "unit"
                           THEN {[d EXCEPT !.fields = Named1(<<Fld(n, U8, <<>>)>>)] : n \in {"a", "b"}}
                                \cup {[d EXCEPT !.fields = Unnamed(<<Fld("", U8, <<>>), Fld("", U8, <<>>)>>)]}
                           ELSE IF d.fields.k = "named"
                           THEN {[d EXCEPT !.fields.fs = Append(@, Fld(n, U8, <<>>))] : n \in {"a", "b"}}
                           ELSE {}
      [] d.d = "enum" -> {[d EXCEPT !.variants = Append(@, Var(n, Unit, <<>>))] : n \in {"A", "B"}}
                         \cup (LET v == d.variants[Len(d.variants)] IN
                               {[d EXCEPT !.variants[Len(d.variants)].fields =
                                    Named1((IF v.fields.k = "unit" THEN <<>> ELSE v.fields.fs) \o <<Fld(n, U8, <<>>)>>)] : n \in {"a", "b"}})
      [] OTHER -> {}

Size(defs) == LET a == Flatten(defs) IN
    Len(a) + LET f[i \in 0..Len(a)] ==
                    IF i = 0 THEN 0
                    ELSE f[i - 1] + (CASE a[i].d = "struct" -> Len(a[i].fields.fs)
                                       [] a[i].d = "enum" -> Len(a[i].variants) - 1 + Len(a[i].variants[Len(a[i].variants)].fields.fs)
                                       [] OTHER -> 0)
             IN f[Len(a)]

RECURSIVE Grow(_)
\* every way to add a declaration at the end
Grow(defs) ==
    {Append(defs, d) : d \in NameDefs}
    \cup (IF defs = <<>> THEN {}
          ELSE LET n == Len(defs) IN
               {[defs EXCEPT ![n] = d] : d \in NameItems(defs[n])}
               \cup (IF defs[n].d = "mod" THEN {[defs EXCEPT ![n].defs = x] : x \in Grow(defs[n].defs)} ELSE {}))

----------------------------------------------------------------------------
\* generics
Gens == {<<"T">>, <<"T", "K">>, <<"K", "T">>, <<"T", "T">>, <<"T", "K", "T">>}
T == Ext(<<>>, "T", <<>>)
K == Ext(<<>>, "K", <<>>)
GenTypes == {U8, T, K, Ext(<<"m">>, "T", <<>>), Ext(<<>>, "T", <<U8>>), Ext(<<>>, "G", <<U8, T>>), Ext(<<"m">>, "G", <<K>>)}
            \cup {One(k, T) : k \in {"vec", "set", "opt", "nz"}}
            \cup {[k |-> "arr", e |-> T, n |-> "3"], [k |-> "map", a |-> U8, b |-> T], [k |-> "map", a |-> K, b |-> U8],
                  [k |-> "tup", es |-> <<U8, K>>], [k |-> "tup", es |-> <<T, U8>>], One("nz", One("vec", T))}
GenSchemas(g, ts) ==
    {<<Struct("S", g, Named1([i \in 1..Len(ts) |-> Fld(FN[i], ts[i], <<>>)]))>>,
     <<Enum("E", g, [i \in 1..Len(ts) |-> Var(VN[i], Unnamed(<<Fld("", ts[i], <<>>)>>), <<>>)])>>,
     <<Mod("m", <<Struct("S", g, Unnamed([i \in 1..Len(ts) |-> Fld("", ts[i], <<>>)]))>>)>>,
     <<Enum("E", g, <<Var("Va", Unit, <<>>), Var("Vb", Named1([i \in 1..Len(ts) |-> Fld(FN[i], ts[i], <<>>)]), <<>>)>>),
       Struct("S", <<>>, Named1(<<Fld("x", Ext(<<>>, "T", <<>>), <<>>)>>))>>}
    \cup {<<Alias("L", g, ts[1])>>}

----------------------------------------------------------------------------
\* tuples
Around(x) ==
    {x} \cup {One(k, x) : k \in {"vec", "set", "opt", "nz"}}
    \cup {[k |-> "arr", e |-> x, n |-> "2"], [k |-> "map", a |-> x, b |-> U8], [k |-> "map", a |-> U8, b |-> x],
          [k |-> "tup", es |-> <<U8, x>>], [k |-> "tup", es |-> <<x, U8, U8>>], Ext(<<>>, "G", <<x>>), Ext(<<"m">>, "G", <<U8, x>>)}
\* a generic inside any two types around one another
Nested == UNION {Around(x) : x \in Around(T)}

TupSchemas(t) ==
    {<<Struct("S", <<>>, Named1(<<Fld("a", U8, <<>>), Fld("b", t, <<>>)>>))>>,
     <<Struct("S", <<>>, Unnamed(<<Fld("", t, <<>>)>>))>>,
     <<Enum("E", <<>>, <<Var("A", Unit, <<>>), Var("B", Named1(<<Fld("a", t, <<>>)>>), <<>>)>>)>>,
     <<Mod("m", <<Enum("E", <<>>, <<Var("A", Unnamed(<<Fld("", U8, <<>>), Fld("", t, <<>>)>>), <<>>)>>)>>)>>,
     <<Alias("L", <<>>, t)>>, <<Const("C", t)>>, <<Mod("m", <<Alias("L", <<>>, t)>>), Struct("S", <<>>, Unit)>>}

----------------------------------------------------------------------------
VARIABLES st
\* st.x: what is being built, st.out: the finished schema (or <<>>)
vars == <<st>>

Emit(s) == PrintT("CASE " \o ToJson(s))

Init ==
    CASE Theme = "ids" -> st \in {[x |-> <<p, <<>>>>, out |-> <<>>] : p \in Places}
      [] Theme = "names" -> st = [x |-> <<>>, out |-> <<>>]
      [] Theme = "generics" -> st \in {[x |-> <<g, <<>>>>, out |-> <<>>] : g \in Gens}
      [] Theme = "tuples" -> st \in {[x |-> Tup(n, U8), out |-> <<>>] : n \in 1..14}

Next ==
    /\ CASE Theme = "ids" ->
                /\ Len(st.x[2]) < (IF Deep THEN 4 ELSE 3)
                /\ \E i \in IdChoices :
                    LET ids == Append(st.x[2], i) IN st' = [x |-> <<st.x[1], ids>>, out |-> IdSchema(st.x[1], ids)]
         [] Theme = "names" ->
                /\ Size(st.x) < (IF Deep THEN 4 ELSE 3)
                /\ \E s \in Grow(st.x) : st' = [x |-> s, out |-> s]
         [] Theme = "generics" ->
                /\ Len(st.x[2]) < 2
                /\ st.x[2] # <<>> => st.x[2][1] \in GenTypes
                /\ \E t \in (IF st.x[2] # <<>> /\ ~Deep THEN {U8, K, One("vec", T)} ELSE GenTypes)
                            \cup (IF st.x = <<<<"T">>, <<>>>> THEN Nested ELSE {}) :
                    LET ts == Append(st.x[2], t) IN
                    \E s \in GenSchemas(st.x[1], ts) : st' = [x |-> <<st.x[1], ts>>, out |-> s]
         [] Theme = "tuples" ->
                \/ \E t \in Around(st.x) :
                    /\ st.out = <<>> /\ st' = [x |-> t, out |-> <<Struct("S", <<>>, Unnamed(<<Fld("", t, <<>>)>>))>>]
                \/ /\ Cardinality(Parts(st.x)) < (IF Deep THEN 5 ELSE 3) /\ st.out # <<>>
                   /\ \E t \in Around(st.x) : \E s \in TupSchemas(t) : st' = [x |-> t, out |-> s]
    /\ Emit(st'.out)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Laws

\* numbering: explicit ones stay, the others follow their predecessor
NumberLaw ==
    \A i \in 1..Len(IdScopes(st.out)) :
        LET items == IdScopes(st.out)[i].items
            ns == Assign(items)
        IN  \A j \in 1..Len(items) :
                /\ (items[j].id # <<>> => ns[j] = items[j].id[1])
                /\ (items[j].id = <<>> /\ j > 1 /\ ns[j - 1] # MaxId => Less(ns[j - 1], ns[j]))
                /\ (items[j].id = <<>> /\ j = 1 => ns[j] = <<1>>)
\* without explicit numbers nothing clashes
ImplicitLaw ==
    (\A i \in 1..Len(IdScopes(st.out)) : \A j \in 1..Len(IdScopes(st.out)[i].items) : IdScopes(st.out)[i].items[j].id = <<>>)
        => DupIds(st.out) = {}
\* what is suggested as next number never clashes
SuggestLaw ==
    \A i \in 1..Len(IdScopes(st.out)) :
        LET ns == Assign(IdScopes(st.out)[i].items) IN
        MaxId \notin SeqSet(ns) => Next1(ns) \notin SeqSet(ns) /\ \A j \in 1..Len(ns) : Less(ns[j], Next1(ns))
\* further declarations repair nothing, except for unused generics
Monotone == [][st.out # <<>> /\ Theme \in {"ids", "names"} => Problems(st.out) \subseteq Problems(st'.out)]_vars
\* wrapping into a module changes no problem
WrapLaw == st.out # <<>> => Problems(<<Mod("wrap", st.out)>>) = Problems(st.out)
=============================================================================
