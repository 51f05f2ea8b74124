-------------------------------- MODULE GoGen --------------------------------
(***************************************************************************)
(* The Go packages a schema stands for.  A package is                      *)
(*   [name, package, doc, imports, decls, mods]                            *)
(* with the declarations of                                                *)
(*   [d |-> "type", name, gen, doc, k, ty, fs]   fs of [name, ty, doc]     *)
(*   [d |-> "func", name, recv, gen, sig, doc, body]                       *)
(*   [d |-> "assert", ty, val]                                             *)
(*   [d |-> "const" or "var", name, ty, val, doc]                          *)
(* and code as nodes <<kind, text, nodes>>.  Encoding, decoding and sizing *)
(* functions are related to the fields they are for: Enc, Size give the    *)
(* expression for a type, Decodes recognises one.                          *)
(*                                                                         *)
(* Dev: the listed deviations that are tolerated.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Schema
LOCAL INSTANCE TLC

CONSTANT Dev

Sub(s, i) == SubSeq(s, i, i)
Raise == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G", h |-> "H", i |-> "I", j |-> "J", k |-> "K", l |-> "L", m |-> "M", n |-> "N", o |-> "O", p |-> "P", q |-> "Q", r |-> "R", s |-> "S", t |-> "T", u |-> "U", v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z"]
Sink  == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g", H |-> "h", I |-> "i", J |-> "j", K |-> "k", L |-> "l", M |-> "m", N |-> "n", O |-> "o", P |-> "p", Q |-> "q", R |-> "r", S |-> "s", T |-> "t", U |-> "u", V |-> "v", W |-> "w", X |-> "x", Y |-> "y", Z |-> "z"]
Lowers == DOMAIN Raise
Uppers == DOMAIN Sink
IsLower(c) == c \in Lowers
IsUpper(c) == c \in Uppers
Up(c)  == IF IsLower(c) THEN Raise[c] ELSE c
Low(c) == IF IsUpper(c) THEN Sink[c] ELSE c
RECURSIVE LowS(_)
LowS(s) == IF Len(s) = 0 THEN "" ELSE Low(Sub(s, 1)) \o LowS(SubSeq(s, 2, Len(s)))

(* The words of an identifier.  mode: the case of the last letter, "-" without one yet. *)
RECURSIVE Split(_, _, _)
Split(s, w, mode) ==
    IF Len(s) = 0 THEN (IF Len(w) = 0 THEN <<>> ELSE <<w>>)
    ELSE LET c == Sub(s, 1)
             rest == SubSeq(s, 2, Len(s))
             last == Len(rest) = 0 \/ (Len(rest) > 0 /\ Sub(rest, 1) = "_")
             nx == IF last THEN "_" ELSE Sub(rest, 1)
             md == IF IsLower(c) THEN "l" ELSE IF IsUpper(c) THEN "u" ELSE mode
         IN  IF c = "_" THEN (IF Len(w) = 0 THEN <<>> ELSE <<w>>) \o Split(rest, "", "-")
             ELSE IF ~last /\ md = "l" /\ IsUpper(nx) THEN <<w \o c>> \o Split(rest, "", "-")
             ELSE IF ~last /\ mode = "u" /\ IsUpper(c) /\ IsLower(nx) THEN <<w>> \o Split(rest, c, "-")
             ELSE Split(rest, w \o c, md)
Words(s) == Split(s, "", "-")

Capital(w) == Up(Sub(w, 1)) \o LowS(SubSeq(w, 2, Len(w)))
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)
Camel(s) == LET w == Words(s) IN Join([i \in 1..Len(w) |-> Capital(w[i])], "")
LowerCamel(s) == LET w == Words(s) IN Join([i \in 1..Len(w) |-> IF i = 1 THEN LowS(w[i]) ELSE Capital(w[i])], "")
Snake(s) == LET w == Words(s) IN Join([i \in 1..Len(w) |-> LowS(w[i])], "_")

Keywords == {"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if",
             "import", "interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var"}
Apart(s) == IF s \in Keywords THEN s \o "_" ELSE s
Param(s) == Apart(LowerCamel(s))
Pack(s) == Apart(Snake(s))

RECURSIVE Number(_)
Number(ds) == IF ds = <<>> THEN 0 ELSE Head(ds) + (128 * Number(Tail(ds)))
Dec10(ds) == ToString(Number(ds))

----------------------------------------------------------------------------
\* Types

GoName == [bool |-> "bool", u8 |-> "uint8", u16 |-> "uint16", u32 |-> "uint32", u64 |-> "uint64", u128 |-> "*big.Int",
           i8 |-> "int8", i16 |-> "int16", i32 |-> "int32", i64 |-> "int64", i128 |-> "*big.Int", f32 |-> "float32", f64 |-> "float64",
           string |-> "string", strref |-> "string", boxstr |-> "string", bytes |-> "[]byte", bytesref |-> "[]byte", boxbytes |-> "[]byte"]
\* how the functions for a type are called
BufName == [bool |-> "Bool", u8 |-> "U8", u16 |-> "U16", u32 |-> "U32", u64 |-> "U64", u128 |-> "U128",
            i8 |-> "I8", i16 |-> "I16", i32 |-> "I32", i64 |-> "I64", i128 |-> "I128", f32 |-> "F32", f64 |-> "F64",
            string |-> "String", strref |-> "String", boxstr |-> "String", bytes |-> "Bytes", bytesref |-> "Bytes", boxbytes |-> "Bytes"]
NzInts == {"u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"}
Single == [vec |-> "Vec", set |-> "HashSet", opt |-> "Option"]
GoKinds == DOMAIN GoName
BufKinds == DOMAIN BufName
SingleKinds == DOMAIN Single

RECURSIVE Ty(_)
Args(ts) == IF ts = <<>> THEN "" ELSE "[" \o Join([i \in 1..Len(ts) |-> Ty(ts[i])], ", ") \o "]"
Ty(t) ==
    CASE t.k \in GoKinds -> GoName[t.k]
      [] t.k = "vec" -> "[]" \o Ty(t.e)
      [] t.k = "map" -> "map[" \o Ty(t.a) \o "]" \o Ty(t.b)
      [] t.k = "set" -> "map[" \o Ty(t.e) \o "]struct{}"
      [] t.k = "opt" -> "*" \o Ty(t.e)
      [] t.k = "arr" -> "[" \o t.n \o "]" \o Ty(t.e)
      [] t.k = "tup" -> "mabo.Tuple" \o ToString(Len(t.es)) \o Args(t.es)
      [] t.k = "nz" -> (CASE t.e.k \in BufKinds -> "mabo.NonZero" \o BufName[t.e.k]
                         [] t.e.k \in {"vec", "set"} -> "mabo.NonZero" \o Single[t.e.k] \o Args(<<t.e.e>>)
                         [] t.e.k = "map" -> "mabo.NonZeroHashMap" \o Args(<<t.e.a, t.e.b>>))
      [] t.k = "ext" -> (IF t.path = <<>> THEN "" ELSE Pack(t.path[Len(t.path)]) \o ".") \o Camel(t.name) \o Args(t.ts)

----------------------------------------------------------------------------
\* Code

Node(k, x, s) == <<k, x, s>>
X(e) == Node("expr", e, <<>>)
Call(f, s) == Node("call", f, s)
Ret(s) == Node("return", "", s)
Set(op, s) == Node("set", op, s)
Fn(sig, body) == Node("func", sig, body)

\* a value: a variable or member, or what is inside of a non-zero one
Ends(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e
V(x) == IF Ends(x, ".Get()") THEN Call(SubSeq(x, 1, Len(x) - 2), <<>>) ELSE X(x)

\* Encoding of the value x
RECURSIVE Enc(_, _)
EncFn(v, t) == Fn("(w []byte, " \o v \o " " \o Ty(t) \o ") []byte", <<Ret(<<Enc(t, v)>>)>>)
Enc(t, x) ==
    CASE t.k \in BufKinds -> Call("buf.Encode" \o BufName[t.k], <<X("w"), V(x)>>)
      [] t.k \in SingleKinds -> Call("buf.Encode" \o Single[t.k] \o Args(<<t.e>>), <<X("w"), V(x), EncFn("v", t.e)>>)
      [] t.k = "arr" -> Call("buf.EncodeArray" \o t.n \o Args(<<t.e>>), <<X("w"), V(x), EncFn("v", t.e)>>)
      [] t.k = "map" -> Call("buf.EncodeHashMap" \o Args(<<t.a, t.b>>), <<X("w"), V(x), EncFn("k", t.a), EncFn("v", t.b)>>)
      [] t.k = "nz" -> Enc(t.e, x \o ".Get()")
      [] t.k = "tup" -> Call("", <<Fn("(w []byte) []byte",
                            [i \in 1..Len(t.es) |-> Set("=", <<X("w"), Enc(t.es[i], x \o ".F" \o ToString(i - 1))>>)] \o <<Ret(<<X("w")>>)>>),
                            X("w")>>)
      [] t.k = "ext" -> Call(x \o ".Encode", <<X("w")>>)

\* Size of the value x; tuples: with any arguments as long as the deviation is there
RECURSIVE Size(_, _)
SizeFn(v, t) == Fn("(" \o v \o " " \o Ty(t) \o ") int", <<Ret(<<Size(t, v)>>)>>)
Size(t, x) ==
    CASE t.k \in BufKinds -> Call("buf.Size" \o BufName[t.k], <<V(x)>>)
      [] t.k \in SingleKinds -> Call("buf.Size" \o Single[t.k] \o Args(<<t.e>>), <<V(x), SizeFn("v", t.e)>>)
      [] t.k = "arr" -> Call("buf.SizeArray" \o t.n \o Args(<<t.e>>), <<V(x), SizeFn("v", t.e)>>)
      [] t.k = "map" -> Call("buf.SizeHashMap" \o Args(<<t.a, t.b>>), <<V(x), SizeFn("k", t.a), SizeFn("v", t.b)>>)
      [] t.k = "nz" -> Size(t.e, x \o ".Get()")
      [] t.k = "tup" -> Call("", <<Fn("() int",
                            <<Set(":=", <<X("size"), X("0")>>)>>
                            \o [i \in 1..Len(t.es) |-> Set("+=", <<X("size"), Size(t.es[i], x \o ".F" \o ToString(i - 1))>>)]
                            \o <<Ret(<<X("size")>>)>>)>> \o (IF "tuple-code" \in Dev THEN <<X("size")>> ELSE <<>>))
      [] t.k = "ext" -> Call(x \o ".Size", <<>>)

Select(s, P(_)) == LET RECURSIVE go(_)
                       go(i) == IF i > Len(s) THEN <<>> ELSE (IF P(s[i]) THEN <<s[i]>> ELSE <<>>) \o go(i + 1)
                   IN  go(1)

\* Is this the decoding of a value of the type?
IfErr == Node("if", "err != nil", <<Ret(<<X("nil"), X("err")>>)>>)
RECURSIVE Decodes(_, _)
DecodesFn(n, t) ==
    /\ n[1] = "func" /\ n[2] = "(r []byte) ([]byte, " \o Ty(t) \o ", error)"
    /\ Len(n[3]) = 1 /\ n[3][1][1] = "return" /\ Len(n[3][1][3]) = 1
    /\ Decodes(n[3][1][3][1], t)
CallOf(n, f, k) == n[1] = "call" /\ n[2] = f /\ Len(n[3]) = k
Generic1(n, name, t) == CallOf(n, "buf.Decode" \o name \o Args(<<t>>), 2) /\ n[3][1] = X("r") /\ DecodesFn(n[3][2], t)
Generic2(n, name, a, b) == CallOf(n, "buf.Decode" \o name \o Args(<<a, b>>), 3) /\ n[3][1] = X("r") /\ DecodesFn(n[3][2], a) /\ DecodesFn(n[3][3], b)
Decodes(n, t) ==
    CASE t.k \in BufKinds -> n = Call("buf.Decode" \o BufName[t.k], <<X("r")>>)
      [] t.k \in SingleKinds -> Generic1(n, Single[t.k], t.e)
      [] t.k = "arr" -> Generic1(n, "Array" \o t.n, t.e)
      [] t.k = "map" -> Generic2(n, "HashMap", t.a, t.b)
      [] t.k = "nz" -> (CASE t.e.k \in BufKinds -> n = Call("buf.DecodeNonZero" \o BufName[t.e.k], <<X("r")>>)
                         [] t.e.k \in {"vec", "set"} -> Generic1(n, "NonZero" \o Single[t.e.k], t.e.e)
                         [] t.e.k = "map" -> Generic2(n, "NonZeroHashMap", t.e.a, t.e.b))
      [] t.k = "tup" ->
            \* each element in turn, into the member it is for
            /\ CallOf(n, "", 2) /\ n[3][2] = X("r") /\ n[3][1][1] = "func"
            /\ LET body == n[3][1][3]
                   reads == Select(body, LAMBDA s : s[1] = "set" /\ s[2] = ":=" /\ Len(s[3]) = 4)
                   moves == Select(body, LAMBDA s : s[1] = "set" /\ s[2] = "=" /\ s[3][1] # X("r"))
               IN  /\ Len(reads) = Len(t.es) /\ Len(moves) = Len(t.es)
                   /\ Len(Select(body, LAMBDA s : s = Set("=", <<X("r"), X("r2")>>))) = Len(t.es)
                   /\ \A i \in 1..Len(t.es) :
                        /\ Decodes(reads[i][3][4], t.es[i])
                        /\ moves[i][3] = <<X("tuple.F" \o ToString(i - 1)), reads[i][3][2]>>
                   /\ \A i, j \in 1..Len(t.es) : i # j => reads[i][3][2] # reads[j][3][2]
                   /\ body[Len(body)] = Ret(<<X("r"), X("tuple"), X("nil")>>)
                   \* the result is a value of the tuple's type
                   /\ \/ "tuple-code" \in Dev
                      \/ /\ n[3][1][2] = "(r []byte) ([]byte, " \o Ty(t) \o ", error)"
                         /\ \E i \in 1..Len(body) : body[i] = Node("decl", "var tuple " \o Ty(t), <<>>)
      [] t.k = "ext" ->
            /\ CallOf(n, "", 2) /\ n[3][2] = X("r") /\ n[3][1][1] = "func"
            /\ n[3][1][2] = "(r []byte) ([]byte, " \o Ty(t) \o ", error)"
            /\ LET body == n[3][1][3] IN
               /\ Len(body) > 1 /\ body[1] = Node("decl", "var value " \o Ty(t), <<>>)
               /\ \/ "external-code" \in Dev /\ Len(body) = 2 /\ body[2] = Ret(<<Call("value.Decode", <<X("r")>>)>>)
                  \/ /\ \E i \in 1..Len(body) : body[i][1] = "set" /\ body[i][3][Len(body[i][3])] = Call("value.Decode", <<X("r")>>)
                     /\ body[Len(body)][1] = "return" /\ Len(body[Len(body)][3]) = 3

----------------------------------------------------------------------------
\* Functions of a type with these fields

FieldName(f, i) == IF f.k = "named" THEN f.fs[i].name ELSE "n" \o ToString(i - 1)
Ids(f) == LET a == Assign(f.fs) IN [i \in 1..Len(f.fs) |-> Dec10(a[i])]

NewBody(full, f) ==
    <<Ret(<<Node("lit", full, [i \in 1..Len(f.fs) |-> Node("kv", Camel(FieldName(f, i)), <<X(Param(FieldName(f, i)))>>)])>>)>>
NewSig(full, f) ==
    "(" \o Join([i \in 1..Len(f.fs) |-> Param(FieldName(f, i)) \o " " \o Ty(f.fs[i].ty)], ", ") \o ") (" \o full \o ")"

EncodeStmts(f) ==
    IF f.k = "unit" THEN <<>>
    ELSE LET id == Ids(f) IN
         [i \in 1..Len(f.fs) |->
            LET t == f.fs[i].ty
                x == "v." \o Camel(FieldName(f, i))
            IN  Set("=", <<X("w"),
                    IF t.k = "opt" THEN Call("buf.EncodeFieldOption" \o Args(<<t.e>>), <<X("w"), X(id[i]), X("&" \o x), EncFn("v", t.e)>>)
                    ELSE Call("buf.EncodeField", <<X("w"), X(id[i]), Fn("(w []byte) []byte", <<Ret(<<Enc(t, x)>>)>>)>>)>>)]
         \o <<Set("=", <<X("w"), Call("buf.EncodeU32", <<X("w"), X("buf.EndMarker")>>)>>)>>
EncodeBody(f) == EncodeStmts(f) \o <<Ret(<<X("w")>>)>>
\* listed deviation: the encoders of enum variants give nothing back
NilBody(f) == EncodeStmts(f) \o <<Ret(<<X("nil")>>)>>

SizeBody(f) ==
    <<Set(":=", <<X("size"), X("0")>>)>>
    \o (IF f.k = "unit" THEN <<>>
        ELSE LET id == Ids(f) IN
             [i \in 1..Len(f.fs) |->
                LET t == f.fs[i].ty
                    x == "v." \o Camel(FieldName(f, i))
                IN  Set("+=", <<X("size"),
                        IF t.k = "opt" THEN Call("buf.SizeFieldOption" \o Args(<<t.e>>), <<X(id[i]), X("&" \o x), SizeFn("v", t.e)>>)
                        ELSE Call("buf.SizeField", <<X(id[i]), Fn("() int", <<Ret(<<Size(t, x)>>)>>)>>)>>)]
             \o <<Set("+=", <<X("size"), X("buf.EndMarkerSize")>>)>>)
    \o <<Ret(<<X("size")>>)>>

Found(f, i) == "found" \o Camel(FieldName(f, i))
Optional(f, i) == f.fs[i].ty.k = "opt"
FoundDecl(f, i) == Set(":=", <<X(Found(f, i)), X("false")>>)
FoundSet(f, i) == Set("=", <<X(Found(f, i)), X("true")>>)
FoundCheck(f, i, id) ==
    Node("if", "!" \o Found(f, i),
         <<Ret(<<X("nil"), Node("lit", "buf.MissingFieldError",
             <<Node("kv", "ID", <<X(id)>>), Node("kv", "Field", <<X("\"" \o (IF f.k = "named" THEN f.fs[i].name ELSE "") \o "\"")>>)>>)>>)>>)

PlainCase(c, f, i, t) ==
    /\ Len(c) = 5
    /\ c[1][1] = "set" /\ c[1][2] = ":=" /\ Len(c[1][3]) = 4 /\ SubSeq(c[1][3], 1, 3) = <<X("r2"), X("value"), X("err")>>
    /\ Decodes(c[1][3][4], t)
    /\ c[2] = IfErr
    /\ c[3] = Set("=", <<X("r"), X("r2")>>)
    /\ c[4] = Set("=", <<X("v." \o Camel(FieldName(f, i))), X("value")>>)
    /\ c[5] = FoundSet(f, i)
\* a value that is there, without the mark of an optional value
OptionalCase(c, f, i, t) ==
    /\ \E j \in 1..Len(c) : c[j][1] = "set" /\ c[j][3] # <<>> /\ Decodes(c[j][3][Len(c[j][3])], t.e)
    /\ \E j \in 1..Len(c) : c[j][1] = "set" /\ c[j][2] = "=" /\ c[j][3][1] = X("v." \o Camel(FieldName(f, i)))

\* the statements in the order they have to be in; opt: those of optional fields
Decoder(body, f) ==
    LET n == Len(f.fs)
        id == Ids(f)
        dev == "go-optional" \in Dev
        Needs(i) == dev \/ ~Optional(f, i)
        decls == Select(body, LAMBDA s : s[1] = "set")
        loops == Select(body, LAMBDA s : s[1] = "for")
        checks == Select(body, LAMBDA s : s[1] = "if")
        idx == Select([i \in 1..n |-> i], Needs)
    IN
    /\ Len(loops) = 1
    /\ Len(body) = Len(decls) + 1 + Len(checks) + 1
    /\ body[Len(decls) + 1] = loops[1] /\ body[Len(body)] = Ret(<<X("r"), X("nil")>>)
    /\ dev => Len(decls) = n
    /\ \A i \in 1..n : Needs(i) => \E j \in 1..Len(decls) : decls[j] = FoundDecl(f, i)
    /\ Len(checks) = Len(idx) /\ \A j \in 1..Len(idx) : checks[j] = FoundCheck(f, idx[j], id[idx[j]])
    /\ loops[1][2] = "len(r) > 0"
    /\ LET b == loops[1][3] IN
       /\ Len(b) = 4
       /\ b[1] = Set(":=", <<X("r2"), X("id"), X("err"), Call("buf.DecodeID", <<X("r")>>)>>)
       /\ b[2] = IfErr
       /\ b[3] = Set("=", <<X("r"), X("r2")>>)
       /\ b[4][1] = "switch" /\ b[4][2] = "id"
       /\ LET cs == b[4][3] IN
          /\ Len(cs) = n + 1 /\ \A j \in 1..Len(cs) : cs[j][1] = "case"
          /\ \A i \in 1..n : cs[i][2] = id[i]
                /\ IF Optional(f, i) /\ ~dev THEN OptionalCase(cs[i][3], f, i, f.fs[i].ty) ELSE PlainCase(cs[i][3], f, i, f.fs[i].ty)
          /\ cs[n + 1][2] = "buf.EndMarker"
          /\ \/ "end-marker" \in Dev /\ cs[n + 1][3] = <<Node("break", "", <<>>)>>
             \/ cs[n + 1][3] # <<>> /\ cs[n + 1][3][1][1] \in {"return", "break", "goto"} /\ cs[n + 1][3][1] # Node("break", "", <<>>)

----------------------------------------------------------------------------
\* Declarations

Doc(c) == [i \in 1..Len(c) |-> "// " \o c[i]]
Names(g) == IF g = <<>> THEN "" ELSE "[" \o Join([i \in 1..Len(g) |-> Camel(g[i])], ", ") \o "]"
Params(g) == IF g = <<>> THEN "" ELSE "[" \o Join([i \in 1..Len(g) |-> Camel(g[i]) \o " any"], ", ") \o "]"
Used(g, f) == Select(g, LAMBDA x : \E i \in 1..Len(f.fs) : Mentions(f.fs[i].ty, x))

Type(name, gen, doc, k, ty, fs) == [d |-> "type", name |-> name, gen |-> gen, doc |-> doc, k |-> k, ty |-> ty, fs |-> fs]
Func(name, recv, gen, sig, body) == [d |-> "func", name |-> name, recv |-> recv, gen |-> gen, sig |-> sig, doc |-> <<>>, body |-> body]
Claim(i, full) == [d |-> "assert", doc |-> <<>>, ty |-> "buf." \o i, val |-> "(*" \o full \o ")(nil)"]
GoFields(f) == [i \in 1..Len(f.fs) |-> [name |-> Camel(FieldName(f, i)), ty |-> Ty(f.fs[i].ty), doc |-> Doc(f.fs[i].comment)]]

\* of a type with fields: itself, its constructor, its codec.  own: whether encoding gives back the buffer
Record(name, g, comment, f, own) ==
    LET full == name \o Names(g) IN
    <<Type(name, Params(g), Doc(comment), "struct", "", GoFields(f)),
      Func("New" \o name, "", Params(g), NewSig(full, f), NewBody(full, f)),
      Claim("Encode", full), Claim("Decode", full), Claim("Size", full),
      Func("Encode", "v *" \o full, "", "(w []byte) ([]byte)", IF own THEN EncodeBody(f) ELSE NilBody(f)),
      [Func("Decode", "v *" \o full, "", "(r []byte) ([]byte, error)", <<>>) EXCEPT !.body = f],
      Func("Size", "v *" \o full, "", "() (int)", SizeBody(f))>>

\* [lit] of a constant is compared as read
IsVar(t) == t.k \in {"u128", "i128", "bytes", "bytesref"}
Decls(d) ==
    CASE d.d = "struct" -> Record(Camel(d.name), d.gen, d.comment, d.fields, TRUE)
      [] d.d = "enum" ->
            <<Type(Camel(d.name) \o "Variant", "", <<>>, "interface", "", <<[name |-> "sealed", ty |-> "func()", doc |-> <<>>]>>),
              Type(Camel(d.name), "", Doc(d.comment), "type", Camel(d.name) \o "Variant", <<>>)>>
            \o Cat([i \in 1..Len(d.variants) |->
                LET v == d.variants[i]
                    name == Camel(d.name) \o "_" \o Camel(v.name)
                    g == Used(d.gen, v.fields)
                IN  Record(name, g, v.comment, v.fields, "enum-encode-nil" \notin Dev)
                    \o <<Func("sealed", "v " \o name \o Names(g), "", "() ()", <<>>)>>])
      [] d.d = "alias" -> <<Type(Camel(d.name), Params(d.gen), Doc(d.comment), "type", Ty(d.ty), <<>>)>>
      [] d.d = "const" -> <<[d |-> IF IsVar(d.ty) THEN "var" ELSE "const", name |-> Camel(d.name), ty |-> Ty(d.ty), val |-> d.lit, doc |-> Doc(d.comment)]>>
      [] OTHER -> <<>>

Is(r, e) ==
    IF e.d = "func" /\ e.name = "Decode"
    THEN [r EXCEPT !.body = <<>>] = [e EXCEPT !.body = <<>>] /\ Decoder(r.body, e.body)
    ELSE r = e


(* What a package has to import: the runtime where it is used, big integers and the packages of other modules. *)
TypesOf(defs) == UNION {UNION {Parts(AllTypes(defs[i])[j]) : j \in 1..Len(AllTypes(defs[i]))} : i \in 1..Len(defs)}
Imported(imports, defs) ==
    LET ts == TypesOf(defs)
        has(e) == \E i \in 1..Len(imports) : Ends(imports[i], e)
    IN  /\ (\E i \in 1..Len(defs) : defs[i].d \in {"struct", "enum"}) => has("buf \"github.com/dnaka91/mabo-go/buf\"")
        /\ (\E t \in ts : t.k \in {"nz", "tup"}) => has("mabo \"github.com/dnaka91/mabo-go\"")
        /\ "imports" \in Dev \/ ( /\ (\E t \in ts : t.k \in {"u128", "i128"}) => has("\"math/big\"")
                                 /\ \A t \in ts : t.k = "ext" /\ t.path # <<>> => has(Pack(t.path[Len(t.path)]) \o "\"") )

Key(r) == CASE r.d = "assert" -> <<"assert", r.ty, r.val>>
            [] r.d = "func" -> <<"func", r.recv, r.name>>
            [] OTHER -> <<"name", "", r.name>>

Same(r, e) == Key(r) = Key(e)

\* Is this the package for these definitions?
RECURSIVE Package(_, _, _, _)
Package(p, name, comment, defs) ==
    LET want == Cat([i \in 1..Len(defs) |-> Decls(defs[i])])
        mods == Select(defs, LAMBDA d : d.d = "mod")
    IN  /\ p.name = name /\ p.package = Pack(name) /\ p.doc = Doc(comment)
        /\ Imported(p.imports, defs)
        /\ Len(p.decls) = Len(want)
        /\ \A i, j \in 1..Len(want) : i # j => Key(p.decls[i]) # Key(p.decls[j])
        /\ \A i \in 1..Len(want) : \E j \in 1..Len(want) : Same(p.decls[j], want[i]) /\ Is(p.decls[j], want[i])
        /\ Len(p.mods) = Len(mods)
        /\ \A i \in 1..Len(mods) : Package(p.mods[i], mods[i].name, mods[i].comment, mods[i].defs)
=============================================================================
