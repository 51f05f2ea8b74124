------------------------------ MODULE MCResolve ------------------------------
(***************************************************************************)
(* Two or three schemas that refer to each other.  The main schema is put  *)
(* together step by step: imports, types of its own, references, each in   *)
(* the root or in one of its modules.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Schema

Deep == IOEnv.DEEP = "1"

U8 == [k |-> "u8"]
Ext(p, n, ts) == [k |-> "ext", path |-> p, name |-> n, ts |-> ts]
Fld(n, t) == [name |-> n, ty |-> t, id |-> <<>>]
Struct(n, g, ts) == [d |-> "struct", name |-> n, gen |-> g,
                     fields |-> IF ts = <<>> THEN [k |-> "unit", fs |-> <<>>]
                                ELSE [k |-> "unnamed", fs |-> [i \in 1..Len(ts) |-> Fld("", ts[i])]]]
Enum(n, g, t) == [d |-> "enum", name |-> n, gen |-> g,
                  variants |-> <<[name |-> "V", id |-> <<>>, fields |-> [k |-> "unit", fs |-> <<>>]],
                                 [name |-> "W", id |-> <<>>, fields |-> [k |-> "named", fs |-> <<Fld("x", t)>>]]>>]
Alias(n) == [d |-> "alias", name |-> n, gen |-> <<>>, ty |-> U8]
Const(n) == [d |-> "const", name |-> n, ty |-> U8]
Mod(n, ds) == [d |-> "mod", name |-> n, defs |-> ds]
Use(s, e) == [d |-> "use", segs |-> s, elem |-> e]
T == Ext(<<>>, "T", <<>>)

Other ==
    <<Struct("A", <<>>, <<U8>>), Struct("G", <<"T">>, <<T>>), Alias("L"), Const("C"),
      Mod("m", <<Struct("A", <<>>, <<>>), Enum("E", <<"T", "K">>, [k |-> "tup", es |-> <<T, Ext(<<>>, "K", <<>>)>>]),
                 Mod("n", <<Struct("N", <<>>, <<U8>>)>>), Alias("L")>>),
      Mod("other", <<Struct("O", <<>>, <<>>)>>)>>
\* another schema with a module of the same name as one of the first
Third == <<Mod("m", <<Struct("Q", <<>>, <<>>)>>), Struct("A", <<"T">>, <<T>>)>>

Imports ==
    {Use(<<"other">>, <<>>), Use(<<"other">>, <<"A">>), Use(<<"other">>, <<"G">>), Use(<<"other", "m">>, <<>>),
     Use(<<"other", "m">>, <<"E">>), Use(<<"other", "m", "n">>, <<>>), Use(<<"other", "m", "n">>, <<"N">>),
     Use(<<"other", "other">>, <<>>),
     Use(<<"other">>, <<"L">>), Use(<<"other">>, <<"C">>), Use(<<"other">>, <<"E">>), Use(<<"other", "n">>, <<>>),
     Use(<<"nope">>, <<>>), Use(<<"m">>, <<"A">>), Use(<<"other", "m">>, <<"L">>), Use(<<"third", "m">>, <<>>), Use(<<"third">>, <<"A">>)}

References ==
    {Ext(p, "A", <<>>) : p \in {<<>>, <<"m">>, <<"other">>, <<"other", "m">>, <<"k">>, <<"m", "n">>, <<"third">>}}
    \cup {Ext(<<>>, "A", <<U8>>), Ext(<<>>, "G", <<U8>>), Ext(<<>>, "G", <<>>), Ext(<<>>, "G", <<U8, U8>>), Ext(<<"other">>, "G", <<U8>>), Ext(<<"other">>, "A", <<U8>>),
          Ext(<<>>, "E", <<U8, U8>>), Ext(<<"m">>, "E", <<U8, U8>>), Ext(<<"m">>, "E", <<U8>>), Ext(<<"other", "m">>, "E", <<U8, U8>>),
          Ext(<<>>, "N", <<>>), Ext(<<"n">>, "N", <<>>), Ext(<<"m", "n">>, "N", <<>>), Ext(<<"other", "m", "n">>, "N", <<>>),
          Ext(<<>>, "L", <<>>), Ext(<<"other">>, "L", <<>>), Ext(<<>>, "C", <<>>), Ext(<<"other">>, "C", <<>>), Ext(<<"m">>, "L", <<>>),
          Ext(<<>>, "T", <<>>), Ext(<<"other">>, "O", <<>>), Ext(<<"other", "other">>, "O", <<>>), Ext(<<"m">>, "Q", <<>>), Ext(<<"m">>, "O", <<>>),
          Ext(<<>>, "Lo", <<>>), Ext(<<"k">>, "Lo", <<>>), Ext(<<"k", "j">>, "Lo", <<>>), Ext(<<"j">>, "Lo", <<>>), Ext(<<>>, "Lo", <<U8>>)}

\* what is around the reference
Wrap(t) == {t, [k |-> "vec", e |-> t], [k |-> "map", a |-> U8, b |-> t], [k |-> "tup", es |-> <<U8, t>>], [k |-> "nz", e |-> t],
            [k |-> "arr", e |-> t, n |-> "2"], Ext(<<>>, "Gen", <<t>>), [k |-> "opt", e |-> [k |-> "set", e |-> t]]}
Holders(t) ==
    {Struct("H", <<>>, <<U8, t>>), Struct("H", <<"T">>, <<t, T>>), Enum("H", <<>>, t), Enum("H", <<"T">>, [k |-> "tup", es |-> <<T, t>>])}

Locals == {Struct("Lo", <<>>, <<>>), Enum("A", <<"T">>, T), Alias("Lo"), Const("A"), Mod("m", <<Struct("A", <<>>, <<>>)>>)}

\* places in the main schema: root, module k, module k::j
Places == {"root", "k", "j"}

VARIABLES imp, loc, ref
vars == <<imp, loc, ref>>
\* imp: set of <<place, import>>, loc: set of <<place, definition>>, ref: <<>> or <<place, definition>>

Ordered(S) ==
    LET RECURSIVE o(_)
        o(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o o(X \ {x})
    IN  o(S)
At(S, p) == Ordered({x[2] : x \in {y \in S : y[1] = p}})
GenD == Struct("Gen", <<"T">>, <<T>>)

Main(i, lo, r) ==
    LET defs(p) == At(i, p) \o At(lo, p) \o (IF r # <<>> /\ r[1] = p THEN <<r[2]>> \o (IF p = "root" THEN <<>> ELSE <<GenD>>) ELSE <<>>)
    IN  defs("root") \o <<GenD>> \o <<Mod("k", defs("k") \o <<Mod("j", defs("j"))>>)>>

World(i, lo, r) == <<[name |-> "other", defs |-> Other], [name |-> "third", defs |-> Third], [name |-> "main", defs |-> Main(i, lo, r)]>>

Init == imp = {} /\ loc = {} /\ ref = <<>>
Import ==
    /\ Cardinality(imp) < (IF Deep THEN 2 ELSE 1) /\ ref = <<>> /\ loc = {}
    /\ \E p \in Places, u \in Imports : imp' = imp \cup {<<p, u>>}
    /\ UNCHANGED <<loc, ref>>
Local ==
    /\ Cardinality(loc) < 1 /\ ref = <<>> /\ (imp = {} \/ Deep)
    /\ \E p \in Places, d \in Locals : loc' = loc \cup {<<p, d>>}
    /\ UNCHANGED <<imp, ref>>
\* the plain reference in one holder, or one of the combinations
Refer ==
    /\ ref = <<>>
    /\ \E p \in Places, t \in References :
        \E h \in (IF (imp = {} /\ loc = {}) \/ Deep THEN UNION {Holders(w) : w \in Wrap(t)} ELSE {Struct("H", <<>>, <<U8, t>>)}) : ref' = <<p, h>>
    /\ UNCHANGED <<imp, loc>>
Next == (Import \/ Local \/ Refer) /\ (ref' # <<>> => PrintT("CASE " \o Verdict(World(imp', loc', ref')) \o " " \o ToJson(World(imp', loc', ref'))))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* Laws

W == World(imp, loc, ref)
\* the order of the schemas does not matter
OrderLaw == ref # <<>> => Verdict(W) = Verdict(<<W[3], W[1], W[2]>>)
\* imports alone are accepted exactly when their targets exist
ImportLaw == ref = <<>> /\ loc = {} => (Verdict(W) = "ok" <=> \A x \in imp : ImportOk(W, x[2]))
\* a further good import never breaks a schema that names everything unambiguously without it
MoreImports ==
    [][ref' = ref /\ imp' # imp /\ Verdict(World(imp, loc, ref)) = "ok" /\ (\A x \in imp' : ImportOk(W, x[2]))
        => Verdict(World(imp', loc', ref')) # "bad"]_vars
\* moving everything from the root into the schema's module leaves nothing reachable that was not
SomewhereLaw == ref # <<>> /\ Verdict(W) = "ok" /\ imp = {} => \A t \in UNION {Refs(FieldTypes(ref[2])[i]) : i \in 1..Len(FieldTypes(ref[2]))} :
                    t.name \in {"T", "Gen", "Lo", "A"}
=============================================================================
