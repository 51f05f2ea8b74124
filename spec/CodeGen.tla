------------------------------- MODULE CodeGen -------------------------------
(***************************************************************************)
(* The Rust items a schema stands for.  An item as found in the generated  *)
(* source is                                                               *)
(*   [i |-> "mod", name, items]       [i |-> "type", name, gen, ty]        *)
(*   [i |-> "struct", name, gen, f]   [i |-> "enum", name, gen, vs]        *)
(*   [i |-> "const", name, ty, val]   [i |-> "use", up, path]              *)
(*   [i |-> "impl", tr, name]                                              *)
(* with f = [k, fs], fs of [name, ty], and Rust types                      *)
(*   path(segs, args), tuple(es), array(e, n), slice(e), ref(e).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Schema

Std(n, args)  == [k |-> "std", n |-> n, args |-> args]
Prims == {"bool", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64"}

IntKinds == {"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}
NzName(k) ==
    CASE k = "u8" -> "NonZeroU8" [] k = "u16" -> "NonZeroU16" [] k = "u32" -> "NonZeroU32" [] k = "u64" -> "NonZeroU64"
      [] k = "u128" -> "NonZeroU128" [] k = "i8" -> "NonZeroI8" [] k = "i16" -> "NonZeroI16" [] k = "i32" -> "NonZeroI32"
      [] k = "i64" -> "NonZeroI64" [] k = "i128" -> "NonZeroI128"

Keywords ==
    {"abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "do", "dyn", "else", "enum",
     "extern", "false", "final", "fn", "for", "gen", "if", "impl", "in", "let", "loop", "macro", "match", "mod", "move",
     "mut", "override", "priv", "pub", "ref", "return", "static", "struct", "trait", "true", "try", "type", "typeof",
     "unsafe", "unsized", "use", "virtual", "where", "while", "yield"}

\* The name of a field or module in Rust.  Keywords are raw identifiers, or get an underscore in
\* front where they can't be one.
Rust(n) == IF n \in Keywords THEN "r#" \o n ELSE IF n \in {"crate", "self", "super"} THEN "_" \o n ELSE n
RustPath(p) == [i \in 1..Len(p) |-> Rust(p[i])]

\* Is this Rust type the one for the declared type?  b: byte strings are shared buffers.
RECURSIVE IsTy(_, _, _)
IsTy(t, r, b) ==
    LET std(n) == r.k = "path" /\ r.segs[Len(r.segs)] = n
        std0(n) == std(n) /\ r.args = <<>>
        std1(n, e) == std(n) /\ Len(r.args) = 1 /\ IsTy(e, r.args[1], b)
        std2(n, x, y) == std(n) /\ Len(r.args) = 2 /\ IsTy(x, r.args[1], b) /\ IsTy(y, r.args[2], b)
    IN
    CASE t.k \in Prims -> std0(t.k)
      [] t.k \in {"string", "strref"} -> std0("String")
      [] t.k \in {"bytes", "bytesref"} -> IF b THEN std0("Bytes") ELSE std1("Vec", [k |-> "u8"])
      [] t.k = "boxstr" -> std("Box") /\ Len(r.args) = 1 /\ r.args[1].k = "path" /\ r.args[1].segs = <<"str">>
      [] t.k = "boxbytes" -> std("Box") /\ Len(r.args) = 1 /\ r.args[1].k = "slice" /\ IsTy([k |-> "u8"], r.args[1].e, b)
      [] t.k = "vec" -> std1("Vec", t.e)
      [] t.k = "set" -> std1("HashSet", t.e)
      [] t.k = "opt" -> std1("Option", t.e)
      [] t.k = "map" -> std2("HashMap", t.a, t.b)
      [] t.k = "arr" -> r.k = "array" /\ r.n = t.n /\ IsTy(t.e, r.e, b)
      [] t.k = "tup" -> r.k = "tuple" /\ Len(r.es) = Len(t.es) /\ \A i \in 1..Len(t.es) : IsTy(t.es[i], r.es[i], b)
      [] t.k = "nz" ->
            \/ std1("NonZero", t.e)
            \/ CASE t.e.k \in IntKinds -> std0(NzName(t.e.k))
                 [] t.e.k \in {"string", "strref"} -> std0("NonZeroString")
                 [] t.e.k \in {"bytes", "bytesref"} -> ~b /\ std0("NonZeroBytes")
                 [] t.e.k = "vec" -> std1("NonZeroVec", t.e.e)
                 [] t.e.k = "set" -> std1("NonZeroHashSet", t.e.e)
                 [] t.e.k = "map" -> std2("NonZeroHashMap", t.e.a, t.e.b)
                 [] OTHER -> FALSE
      [] t.k = "ext" ->
            /\ r.k = "path" /\ r.segs = RustPath(t.path) \o <<t.name>>
            /\ Len(r.args) = Len(t.ts) /\ \A i \in 1..Len(t.ts) : IsTy(t.ts[i], r.args[i], b)

----------------------------------------------------------------------------
\* The documented combinations

RECURSIVE Hashable(_, _)
\* what can be the key of a map or the element of a set
Hashable(t, b) ==
    CASE t.k \in {"f32", "f64", "map", "set", "ext"} -> FALSE
      [] t.k \in {"bytesref", "boxbytes"} -> ~b
      [] t.k = "nz" -> t.e.k \in IntKinds
      [] t.k \in {"vec", "opt", "arr"} -> Hashable(t.e, b)
      [] t.k = "tup" -> \A i \in 1..Len(t.es) : Hashable(t.es[i], b)
      [] OTHER -> TRUE

RECURSIVE Argument(_, _)
\* what can be the argument of a generic type
Argument(t, b) ==
    CASE t.k \in {"bytes", "bytesref"} -> ~b
      [] t.k \in {"strref", "nz", "tup", "set"} -> FALSE
      [] t.k = "map" -> t.a.k \notin {"nz", "vec", "opt", "arr", "tup"} /\ Argument(t.a, b) /\ Argument(t.b, b)
      [] t.k \in {"vec", "opt", "arr"} -> Argument(t.e, b)
      [] t.k = "ext" -> \A i \in 1..Len(t.ts) : Argument(t.ts[i], b)
      [] OTHER -> TRUE

RECURSIVE Documented(_, _)
Documented(t, b) ==
    CASE t.k = "set" -> Hashable(t.e, b) /\ Documented(t.e, b)
      [] t.k = "map" -> Hashable(t.a, b) /\ Documented(t.a, b) /\ Documented(t.b, b)
      [] t.k = "nz" -> t.e.k \in IntKinds \cup {"string", "strref", "bytes", "bytesref", "vec", "map", "set"} /\ Documented(t.e, b)
      [] t.k \in {"vec", "opt", "arr"} -> Documented(t.e, b)
      [] t.k = "tup" -> Len(t.es) \in 2..12 /\ \A i \in 1..Len(t.es) : Documented(t.es[i], b)
      [] t.k = "ext" -> \A i \in 1..Len(t.ts) : Argument(t.ts[i], b) /\ Documented(t.ts[i], b)
      [] OTHER -> TRUE

----------------------------------------------------------------------------
\* Items

IsConstTy(t, r) ==
    CASE t.k \in {"string", "strref"} -> r.k = "ref" /\ r.e.k = "path" /\ r.e.segs = <<"str">>
      [] t.k \in {"bytes", "bytesref"} -> r.k = "ref" /\ r.e.k = "slice" /\ IsTy([k |-> "u8"], r.e.e, FALSE)
      [] OTHER -> IsTy(t, r, FALSE)

IsFields(f, r, b) ==
    /\ r.k = f.k
    /\ Len(r.fs) = Len(f.fs)
    /\ \A i \in 1..Len(f.fs) : (f.k = "named" => r.fs[i].name = Rust(f.fs[i].name)) /\ IsTy(f.fs[i].ty, r.fs[i].ty, b)

Impls(items, n) == {items[i].tr : i \in {j \in 1..Len(items) : items[j].i = "impl" /\ items[j].name = n}}
Items(items, k) == LET idx == {j \in 1..Len(items) : items[j].i \in k}
                       RECURSIVE go(_)
                       go(j) == IF j > Len(items) THEN <<>> ELSE (IF items[j].i \in k THEN <<items[j]>> ELSE <<>>) \o go(j + 1)
                   IN  go(1)
Others(defs) == LET RECURSIVE go(_)
                    go(j) == IF j > Len(defs) THEN <<>> ELSE (IF defs[j].d # "use" THEN <<defs[j]>> ELSE <<>>) \o go(j + 1)
                IN  go(1)

\* The declared items, one for one and in any order, each with its implementations
RECURSIVE Declares(_, _, _)
IsItem(d, r, b) ==
    CASE d.d = "struct" -> r.i = "struct" /\ r.gen = d.gen /\ IsFields(d.fields, r.f, b)
      [] d.d = "enum" -> /\ r.i = "enum" /\ r.gen = d.gen /\ Len(r.vs) = Len(d.variants)
                         /\ \A i \in 1..Len(d.variants) : r.vs[i].name = d.variants[i].name /\ IsFields(d.variants[i].fields, r.vs[i].f, b)
      [] d.d = "alias" -> r.i = "type" /\ r.gen = d.gen /\ IsTy(d.ty, r.ty, b)
      [] d.d = "const" -> r.i = "const" /\ IsConstTy(d.ty, r.ty) /\ r.val = d.lit
      [] d.d = "mod" -> r.i = "mod" /\ Declares(d.defs, r.items, b)
Declares(defs, items, b) ==
    LET ds == Others(defs)
        rs == Items(items, {"struct", "enum", "type", "const", "mod"})
    IN  /\ Len(ds) = Len(rs)
        /\ \A i \in 1..Len(ds) : \E j \in 1..Len(rs) :
            /\ rs[j].name = (IF ds[i].d = "mod" THEN Rust(ds[i].name) ELSE ds[i].name) /\ IsItem(ds[i], rs[j], b)
            /\ (ds[i].d \in {"struct", "enum"} => {"Encode", "Decode", "Size"} \subseteq Impls(items, ds[i].name))
=============================================================================
