-------------------------------- MODULE Syntax --------------------------------
(***************************************************************************)
(* The text of schemas: which texts denote a given schema, and where in    *)
(* the text every element of it is.                                        *)
(*                                                                         *)
(* Texts, names and comments are sequences of bytes (UTF-8).  The tree is  *)
(* the one of module Schema plus comments, attributes and literals:        *)
(*   schema  = [comment, defs], comment = sequence of lines                *)
(*   struct, enum have attrs = sequence of [name, v]                       *)
(*     v = [k |-> "unit"] or [k |-> "single", lit] or [k |-> "multi", attrs]*)
(*   const has lit = [k, v] with k "bool" and v <<1>> or <<0>>, "int" and  *)
(*     <<1 if negative>> and the decimal digits, "float" and the bits as   *)
(*     64 bit number in 16 hexadecimal digits, "str" or "bytes" and bytes  *)
(*   numbers of fields, variants and array sizes are decimal digits        *)
(*                                                                         *)
(* A tree is laid out as a sequence of pieces: fixed text, names, gaps     *)
(* (blanks, or any white space), optional commas, literals.  A text        *)
(* denotes the tree if it matches the pieces from its beginning to its     *)
(* end.                                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Text == [
    struct |-> <<115, 116, 114, 117, 99, 116>>,
    enum |-> <<101, 110, 117, 109>>,
    mod |-> <<109, 111, 100>>,
    alias |-> <<116, 121, 112, 101>>,
    const |-> <<99, 111, 110, 115, 116>>,
    use |-> <<117, 115, 101>>,
    bool |-> <<98, 111, 111, 108>>,
    u8 |-> <<117, 56>>,
    u16 |-> <<117, 49, 54>>,
    u32 |-> <<117, 51, 50>>,
    u64 |-> <<117, 54, 52>>,
    u128 |-> <<117, 49, 50, 56>>,
    i8 |-> <<105, 56>>,
    i16 |-> <<105, 49, 54>>,
    i32 |-> <<105, 51, 50>>,
    i64 |-> <<105, 54, 52>>,
    i128 |-> <<105, 49, 50, 56>>,
    f32 |-> <<102, 51, 50>>,
    f64 |-> <<102, 54, 52>>,
    string |-> <<115, 116, 114, 105, 110, 103>>,
    strref |-> <<38, 115, 116, 114, 105, 110, 103>>,
    bytes |-> <<98, 121, 116, 101, 115>>,
    bytesref |-> <<38, 98, 121, 116, 101, 115>>,
    boxstr |-> <<98, 111, 120, 60, 115, 116, 114, 105, 110, 103, 62>>,
    boxbytes |-> <<98, 111, 120, 60, 98, 121, 116, 101, 115, 62>>,
    vec |-> <<118, 101, 99>>,
    map |-> <<104, 97, 115, 104, 95, 109, 97, 112>>,
    set |-> <<104, 97, 115, 104, 95, 115, 101, 116>>,
    opt |-> <<111, 112, 116, 105, 111, 110>>,
    nz |-> <<110, 111, 110, 95, 122, 101, 114, 111>>
]
True  == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>

Blank  == {9, 32}
White  == {9, 10, 13, 32}
Digit  == 48..57
Upper  == 65..90
Lower  == 97..122
HexDigit == Digit \cup 65..70 \cup 97..102

\* first and further characters of names
Name1 == [type |-> Upper, ref |-> Upper, low |-> Lower, const |-> Upper]
NameN == [type |-> Digit \cup Upper \cup Lower, ref |-> Digit \cup Upper \cup Lower \cup {95},
          low |-> Digit \cup Lower \cup {95}, const |-> Digit \cup Upper \cup {95}]

IsName(class, n) == n # <<>> /\ n[1] \in Name1[class] /\ \A i \in 2..Len(n) : n[i] \in NameN[class]

----------------------------------------------------------------------------
\* Pieces

T(bytes)  == <<"text", bytes>>
Tok(bytes, role) == <<"tok", bytes, role>>   \* a keyword, delimiter or separator
Kw(k)     == Tok(Text[k], "keyword")
N(class, n, role) == <<"name", class, n, role>>
Sp        == <<"sp">>                   \* blanks, if any
Sp1       == <<"sp1">>                  \* at least one blank
Ws        == <<"ws">>                   \* white space, if any
Comma     == Tok(<<44>>, ",")
Trail     == <<"trail", TRUE>>          \* a comma, if there is one
Trail0    == <<"trail", FALSE>>         \* the same, not recorded
Open(k)   == <<"open", k, k>>
OpenAs(k, role) == <<"open", k, role>>
Close     == <<"close">>
Never     == <<"never">>

RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Join(Tail(ss))

\* o x , x , x c with an optional comma at the end; never empty
ListOf(o, xs, comma, trail, c) ==
    IF xs = <<>> THEN <<Never>>
    ELSE <<o>> \o Join([i \in 1..Len(xs) |-> (IF i > 1 THEN <<Ws, comma>> ELSE <<>>) \o <<Ws>> \o xs[i]])
         \o <<trail, Ws, c>>
Listed(o, xs, c) == ListOf(o, xs, Comma, Trail, c)
BraceL == Tok(<<123>>, "{")    BraceR == Tok(<<125>>, "}")
ParenL == Tok(<<40>>, "(")     ParenR == Tok(<<41>>, ")")
AngleL == Tok(<<60>>, "<")     AngleR == Tok(<<62>>, ">")
Semi   == Tok(<<59>>, ";")     Equal  == Tok(<<61>>, "=")
Colon  == Tok(<<58>>, ":")     Colons == Tok(<<58, 58>>, "::")

RECURSIVE TypeP(_)
TypeP(t) ==
    <<OpenAs("type", IF t.k \in DOMAIN Text /\ ~(t.k \in {"vec", "set", "opt", "nz", "map"}) THEN "builtin" ELSE "type")>> \o
    (CASE t.k \in {"vec", "set", "opt", "nz"} ->
             <<Tok(Text[t.k], "builtin"), AngleL>> \o TypeP(t.e) \o <<Ws, AngleR>>
       [] t.k = "map" ->
             <<Tok(Text["map"], "builtin"), AngleL>> \o TypeP(t.a) \o <<Sp, Comma, Sp>> \o TypeP(t.b) \o <<Ws, AngleR>>
       [] t.k = "tup" -> Listed(ParenL, [i \in 1..Len(t.es) |-> TypeP(t.es[i])], ParenR)
       [] t.k = "arr" -> <<Tok(<<91>>, "["), Ws>> \o TypeP(t.e) \o <<Ws, Semi, Ws, <<"dec", t.n>>, Ws, Tok(<<93>>, "]")>>
       [] t.k = "ext" ->
             Join([i \in 1..Len(t.path) |-> <<N("low", t.path[i], "segment"), Colons>>])
             \o <<N("ref", t.name, "ref")>>
             \o (IF t.ts = <<>> THEN <<>> ELSE Listed(AngleL, [i \in 1..Len(t.ts) |-> TypeP(t.ts[i])], AngleR))
       [] OTHER -> <<T(Text[t.k])>>)
    \o <<Close>>

IdP(id) == IF id = <<>> THEN <<>> ELSE <<Sp, Open("id"), T(<<64>>), <<"dec", id[1]>>, Close>>

LitP(lit) == <<OpenAs("literal", IF lit.k = "bool" THEN "bool" ELSE IF lit.k \in {"int", "float"} THEN "number" ELSE "literal"), <<"lit", lit>>, Close>>

CommentP(c) == Join([i \in 1..Len(c) |-> <<Sp, Open("comment"), <<"line", c[i]>>, Close, T(<<10>>)>>])

FieldP(class, f) ==
    (IF class = "named" THEN CommentP(f.comment) \o <<Sp>> ELSE <<>>)
    \o <<OpenAs("field", IF class = "named" THEN "whole" ELSE "unnamed")>>
    \o (IF class = "named" THEN <<N("low", f.name, "field"), Sp, Colon, Sp>> ELSE <<>>)
    \o TypeP(f.ty) \o IdP(f.id) \o <<Close>>

FieldsP(f) ==
    CASE f.k = "named"   -> <<Sp>> \o Listed(BraceL, [i \in 1..Len(f.fs) |-> FieldP("named", f.fs[i])], BraceR)
      [] f.k = "unnamed" -> <<Sp>> \o Listed(ParenL, [i \in 1..Len(f.fs) |-> FieldP("unnamed", f.fs[i])], ParenR)
      [] OTHER -> IF f.fs = <<>> THEN <<Sp>> ELSE <<Never>>

VariantP(v) ==
    CommentP(v.comment) \o <<Sp, OpenAs("variant", "whole"), N("type", v.name, "variant")>> \o FieldsP(v.fields) \o IdP(v.id) \o <<Close>>

GenericsP(g) == IF g = <<>> THEN <<>> ELSE Listed(AngleL, [i \in 1..Len(g) |-> <<N("type", g[i], "generic")>>], AngleR)

RECURSIVE AttrP(_)
AttrP(a) ==
    << <<"word", "low", a.name>> >> \o
    (CASE a.v.k = "unit" -> <<>>
       [] a.v.k = "single" -> <<Sp, T(<<61>>), Sp>> \o LitP(a.v.lit)
       [] a.v.k = "multi" -> ListOf(T(<<40>>), [i \in 1..Len(a.v.attrs) |-> AttrP(a.v.attrs[i])], T(<<44>>), Trail0, T(<<41>>)))

\* #[a, b] with a line per block: between two of them either a comma or a new block
AttrsP(as) ==
    IF as = <<>> THEN <<>>
    ELSE <<T(<<35, 91>>)>>
         \o Join([i \in 1..Len(as) |-> (IF i > 1 THEN << <<"next">> >> ELSE <<>>) \o <<Ws>> \o AttrP(as[i])])
         \o <<Trail0, Ws, T(<<93, 10>>)>>

RECURSIVE DefP(_)
DefP(d) ==
    <<Ws>>
    \o (IF d.d = "use" THEN << <<"comments">> >> ELSE CommentP(d.comment))
    \o <<Ws>>
    \o (IF d.d \in {"struct", "enum"} THEN AttrsP(d.attrs) ELSE << <<"attrs">> >>)
    \o <<Sp, Kw(d.d), Sp1>>
    \o (CASE d.d = "use" ->
               (IF d.segs = <<>> THEN <<Never>> ELSE <<OpenAs("path", "use")>>)
               \o Join([i \in 1..Len(d.segs) |-> (IF i > 1 THEN <<T(<<58, 58>>)>> ELSE <<>>) \o <<N("low", d.segs[i], "segment")>>])
               \o (IF d.elem = <<>> THEN <<>> ELSE <<Colons, N("type", d.elem[1], "ref")>>)
               \o <<Close, Semi>>
         [] d.d = "mod" ->
               <<N("low", d.name, "mod"), Sp, BraceL>> \o Join([i \in 1..Len(d.defs) |-> DefP(d.defs[i])])
               \o <<Ws, BraceR>>
         [] d.d = "struct" -> <<N("type", d.name, "struct")>> \o GenericsP(d.gen) \o FieldsP(d.fields)
         [] d.d = "enum" ->
               <<N("type", d.name, "enum")>> \o GenericsP(d.gen) \o <<Sp>>
               \o Listed(BraceL, [i \in 1..Len(d.variants) |-> VariantP(d.variants[i])], BraceR)
         [] d.d = "alias" ->
               <<N("type", d.name, "alias")>> \o GenericsP(d.gen) \o <<Sp, Equal, Sp>> \o TypeP(d.ty) \o <<Sp, Semi>>
         [] d.d = "const" ->
               <<N("const", d.name, "const"), Colon, Sp>> \o TypeP(d.ty) \o <<Sp, Equal, Sp>>
               \o LitP(d.lit) \o <<Semi>>)

\* A block of comment lines at the very start belongs to the schema if an empty line follows
SchemaP(s) ==
    (IF s.comment # <<>> THEN <<Ws>> \o CommentP(s.comment) \o <<T(<<10>>)>>
     ELSE << <<"nohead">> >>)
    \o Join([i \in 1..Len(s.defs) |-> DefP(s.defs[i])]) \o <<Ws, <<"eof">> >>

----------------------------------------------------------------------------
\* Reading.  Positions are 1-based, 0 means that there is no match.

At(t, p) == IF p \in 1..Len(t) THEN t[p] ELSE -1

RECURSIVE Skip(_, _, _)
Skip(t, p, S) == IF At(t, p) \in S THEN Skip(t, p + 1, S) ELSE p

Word(t, p, w) == IF p > 0 /\ p + Len(w) - 1 <= Len(t) /\ SubSeq(t, p, p + Len(w) - 1) = w THEN p + Len(w) ELSE 0

NotRead == [p |-> 0, v |-> <<>>]

\* without leading zeros
RECURSIVE Canon(_)
Canon(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Canon(Tail(d)) ELSE d

\* UTF-8
Encode(c) ==
    CASE c < 128 -> <<c>>
      [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
      [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
      [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

HexVal(h) == IF h < 58 THEN h - 48 ELSE IF h < 71 THEN h - 55 ELSE h - 87
RECURSIVE HexNum(_)
HexNum(h) == IF h = <<>> THEN 0 ELSE 16 * HexNum(SubSeq(h, 1, Len(h) - 1)) + HexVal(h[Len(h)])

Escapes == (110 :> 10) @@ (114 :> 13) @@ (116 :> 9) @@ (98 :> 8) @@ (102 :> 12)
           @@ (92 :> 92) @@ (47 :> 47) @@ (34 :> 34) @@ (48 :> 0)

\* the rest of a string literal, the opening quote is before p
RECURSIVE ReadStr(_, _, _)
ReadStr(t, p, acc) ==
    LET c == At(t, p)  n == At(t, p + 1) IN
    CASE c = -1 -> NotRead
      [] c = 34 -> [p |-> p + 1, v |-> acc]
      [] c = 92 ->
            CASE n \in White -> ReadStr(t, Skip(t, p + 1, White), acc)
              [] n \in DOMAIN Escapes -> ReadStr(t, p + 2, Append(acc, Escapes[n]))
              [] n = 117 ->
                    LET e == Skip(t, p + 3, HexDigit)
                        h == SubSeq(t, p + 3, e - 1)
                        x == HexNum(h)
                    IN  IF At(t, p + 2) = 123 /\ At(t, e) = 125 /\ Len(h) \in 1..6
                           /\ x <= 1114111 /\ ~(x >= 55296 /\ x <= 57343)
                        THEN ReadStr(t, e + 1, acc \o Encode(x))
                        ELSE NotRead
              [] OTHER -> NotRead
      [] OTHER -> ReadStr(t, p + 1, Append(acc, c))

\* the elements of a bytes literal
RECURSIVE ReadBytes(_, _, _)
ReadBytes(t, p, acc) ==
    LET a == Skip(t, p, White)
        b == Skip(t, a, Digit)
        d == Canon(SubSeq(t, a, b - 1))
        c == Skip(t, b, White)
    IN  IF At(t, a) = 93 THEN (IF acc = <<>> THEN NotRead ELSE [p |-> a + 1, v |-> acc])
        ELSE IF b = a \/ Len(d) > 3 THEN NotRead
        ELSE LET n == (IF Len(d) = 3 THEN 100 * (d[1] - 48) ELSE 0)
                      + (IF Len(d) >= 2 THEN 10 * (d[Len(d) - 1] - 48) ELSE 0) + (d[Len(d)] - 48)
             IN  IF n > 255 THEN NotRead
                 ELSE IF At(t, c) = 44 THEN ReadBytes(t, c + 1, Append(acc, n))
                 ELSE IF At(t, c) = 93 THEN [p |-> c + 1, v |-> Append(acc, n)]
                 ELSE NotRead

\* floats is what the environment says about decimal numbers: a sequence of [t, v]
ReadNum(t, p, floats) ==
    LET a == IF At(t, p) \in {43, 45} THEN p + 1 ELSE p
        b == Skip(t, a, Digit)
        c == IF At(t, b) = 46 THEN Skip(t, b + 1, Digit) ELSE b
        e0 == IF At(t, c) \in {69, 101} THEN (IF At(t, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE c
        e == Skip(t, e0, Digit)
        whole == SubSeq(t, p, e - 1)
        d == Canon(SubSeq(t, a, b - 1))
    IN  IF b = a THEN NotRead
        ELSE IF c = b
        THEN IF At(t, b) = 46 THEN NotRead
             ELSE [p |-> b, v |-> [k |-> "int", v |-> <<IF At(t, p) = 45 /\ d # <<48>> THEN 1 ELSE 0>> \o d]]
        ELSE IF c = b + 1 \/ (e0 # c /\ e = e0) \/ ~\E i \in 1..Len(floats) : floats[i].t = whole THEN NotRead
        ELSE [p |-> e, v |-> [k |-> "float", v |-> (floats[CHOOSE i \in 1..Len(floats) : floats[i].t = whole]).v]]

ReadLit(t, p, floats) ==
    LET c == At(t, p)
        with(k, r) == IF r.p = 0 THEN NotRead ELSE [p |-> r.p, v |-> [k |-> k, v |-> r.v]]
    IN  CASE Word(t, p, True) > 0 -> [p |-> p + 4, v |-> [k |-> "bool", v |-> <<1>>]]
          [] Word(t, p, False) > 0 -> [p |-> p + 5, v |-> [k |-> "bool", v |-> <<0>>]]
          [] c = 34 -> with("str", ReadStr(t, p + 1, <<>>))
          [] c = 91 -> with("bytes", ReadBytes(t, p + 1, <<>>))
          [] OTHER -> ReadNum(t, p, floats)

\* any attributes
RECURSIVE ReadAttrs(_, _, _, _), ReadAttr(_, _, _)
ReadAttr(t, p, floats) ==
    LET a == Skip(t, p, NameN["low"])
        b == Skip(t, a, Blank)
    IN  IF ~(At(t, p) \in Lower) THEN 0
        ELSE IF At(t, a) = 40 THEN ReadAttrs(t, a + 1, 41, floats)
        ELSE IF At(t, b) = 61 THEN ReadLit(t, Skip(t, b + 1, Blank), floats).p
        ELSE a
ReadAttrs(t, p, close, floats) ==
    LET a == ReadAttr(t, Skip(t, p, White), floats)
        b == Skip(t, a, White)
        c == Skip(t, b + 1, White)
    IN  IF a = 0 THEN 0
        ELSE IF At(t, b) = close THEN b + 1
        ELSE IF At(t, b) # 44 THEN 0
        ELSE IF At(t, c) = close THEN c + 1
        ELSE ReadAttrs(t, b + 1, close, floats)
RECURSIVE SkipAttrs(_, _, _)
SkipAttrs(t, p, floats) ==
    IF Word(t, p, <<35, 91>>) = 0 THEN p
    ELSE LET a == ReadAttrs(t, p + 2, 93, floats) IN
         IF a = 0 \/ At(t, a) # 10 THEN 0 ELSE SkipAttrs(t, a + 1, floats)

RECURSIVE LineEnd(_, _)
LineEnd(t, p) == IF At(t, p) \in {10, -1} THEN p ELSE LineEnd(t, p + 1)

RECURSIVE SkipComments(_, _)
SkipComments(t, p) ==
    LET a == Skip(t, p, Blank)  e == LineEnd(t, a) IN
    IF Word(t, a, <<47, 47, 47>>) > 0 /\ At(t, e) = 10 THEN SkipComments(t, e + 1) ELSE p

\* Reads one piece; the state is the position (0: no match), the ranges found so far,
\* the open ones among them and the current comment line's ...
Step(t, floats, st, pc) ==
    LET p == st.p
        to(q) == [st EXCEPT !.p = q]
        tok(q, n, r) == [st EXCEPT !.p = q, !.spans = Append(@, <<"tok", n - 1, q - 1>>), !.roles = Append(@, r)]
    IN
    IF p = 0 THEN st
    ELSE CASE pc[1] = "text" -> to(Word(t, p, pc[2]))
           [] pc[1] = "tok" -> IF Word(t, p, pc[2]) = 0 THEN to(0) ELSE tok(p + Len(pc[2]), p, pc[3])
           [] pc[1] = "name" ->
                 LET q == Word(t, p, pc[3]) IN
                 IF q > 0 /\ IsName(pc[2], pc[3]) /\ ~(At(t, q) \in NameN[pc[2]])
                 THEN [st EXCEPT !.p = q, !.spans = Append(@, <<"name", p - 1, q - 1>>), !.roles = Append(@, pc[4])]
                 ELSE to(0)
           [] pc[1] = "word" ->
                 LET q == Word(t, p, pc[3]) IN
                 IF q > 0 /\ IsName(pc[2], pc[3]) /\ ~(At(t, q) \in NameN[pc[2]]) THEN to(q) ELSE to(0)
           [] pc[1] = "sp" -> to(Skip(t, p, Blank))
           [] pc[1] = "sp1" -> IF At(t, p) \in Blank THEN to(Skip(t, p, Blank)) ELSE to(0)
           [] pc[1] = "ws" -> to(Skip(t, p, White))
           [] pc[1] = "trail" ->
                 LET q == Skip(t, p, White) IN IF At(t, q) # 44 THEN st ELSE IF pc[2] THEN tok(q + 1, q, ",") ELSE to(q + 1)
           [] pc[1] = "next" ->
                 LET q == Skip(t, p, White)
                     r == IF At(t, q) = 44 THEN Skip(t, q + 1, White) ELSE q
                 IN  IF At(t, r) = 93 THEN to(Word(t, r, <<93, 10, 35, 91>>))
                     ELSE IF At(t, q) = 44 THEN to(q + 1) ELSE to(0)
           [] pc[1] = "open" ->
                 [st EXCEPT !.spans = Append(@, <<pc[2], p - 1, -1>>), !.roles = Append(@, pc[3]), !.open = <<Len(st.spans) + 1>> \o @]
           [] pc[1] = "close" -> [st EXCEPT !.spans[Head(st.open)][3] = p - 1, !.open = Tail(@)]
           [] pc[1] = "dec" ->
                 LET q == Skip(t, p, Digit) IN
                 IF q > p /\ Canon(SubSeq(t, p, q - 1)) = pc[2] THEN to(q) ELSE to(0)
           [] pc[1] = "lit" ->
                 LET r == ReadLit(t, p, floats) IN IF r.p > 0 /\ r.v = pc[2] THEN to(r.p) ELSE to(0)
           [] pc[1] = "line" ->
                 LET a == Word(t, p, <<47, 47, 47>>)
                     b == Skip(t, a, Blank)
                     e == LineEnd(t, b)
                 IN  IF a > 0 /\ SubSeq(t, b, e - 1) = pc[2] THEN to(e) ELSE to(0)
           [] pc[1] = "comments" -> to(SkipComments(t, p))
           [] pc[1] = "attrs" -> to(SkipAttrs(t, p, floats))
           [] pc[1] = "nohead" ->
                 LET a == Skip(t, p, White)  e == SkipComments(t, a) IN
                 IF e > a /\ At(t, e) = 10 THEN to(0) ELSE st
           [] pc[1] = "eof" -> IF p = Len(t) + 1 THEN st ELSE to(0)
           [] OTHER -> to(0)

Reading(s, t, floats) ==
    LET step(st, pc) == Step(t, floats, st, pc)
    IN  FoldLeft(step, [p |-> 1, spans |-> <<>>, roles |-> <<>>, open |-> <<>>], SchemaP(s))

\* The text denotes the schema
Denotes(s, t, floats) == Reading(s, t, floats).p > 0

\* Where everything is: kind, first byte and the byte after the last, counted from 0
Ranges(r) == {r.spans[i] : i \in 1..Len(r.spans)}
\* The same in the order of the text, each with what it is
Elements(r) == [i \in 1..Len(r.spans) |-> Append(r.spans[i], r.roles[i])]

\* A position between two characters of a text
Boundary(t, i) == i \in 0..Len(t) /\ ~(At(t, i + 1) \in 128..191)
=============================================================================
