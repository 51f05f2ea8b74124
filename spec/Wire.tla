-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The mabo wire format: encoding, size and decoding as functions of a     *)
(* type.  Everything is over TLC's 32 bit integers, so integers of the     *)
(* format are kept as sequences of base-128 digits, least significant      *)
(* first, without trailing zeros (zero is <<>>).                           *)
(*                                                                         *)
(* Types (records, tag k):                                                 *)
(*   bool u8 i8 u16..u128 i16..i128 f32 f64 string bytes                   *)
(*   [k|->"vec"|"set"|"opt"|"nz"|"via", e]   [k|->"map", a, b]             *)
(*   [k|->"arr", e, n]   [k|->"tup", es]   [k|->"ref", i]                  *)
(* "ref" points into the table of declared structs and enums, "via" is a   *)
(* value reached through a generic parameter.                              *)
(* Declarations:                                                           *)
(*   [k|->"struct", shape, fs]  [k|->"enum", vs]                           *)
(*   fs: sequence of [id, n, t];  vs: sequence of [id, shape, fs]          *)
(* Values: BOOLEAN; Int for u8/i8; [s, m] for the other integers; byte     *)
(* sequences for floats, strings and bytes; sequences for collections,     *)
(* pairs for map entries; <<>> or <<v>> for options; the sequence of field *)
(* values for structs; [i, f] for enums (variant index, field values).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
    Types,        \* table of declarations
    DevTupleSize, \* known deviation: Size leaves out a tuple field's length prefix
    DevSkip       \* known deviation: struct-typed fields cannot be skipped

----------------------------------------------------------------------------
\* Base-128 numbers

RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE <<n % 128>> \o Digits(n \div 128)

RECURSIVE Strip(_)
Strip(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE Strip(SubSeq(m, 1, Len(m) - 1))

\* m * k + c for small k, c
RECURSIVE MulAddR(_, _, _)
MulAddR(m, k, c) ==
    IF m = <<>> THEN Digits(c)
    ELSE LET x == Head(m) * k + c IN <<x % 128>> \o MulAddR(Tail(m), k, x \div 128)
MulAdd(m, k, c) == Strip(MulAddR(m, k, c))

RECURSIVE Pred(_)
Pred(m) == IF Head(m) = 0 THEN <<127>> \o Pred(Tail(m)) ELSE <<Head(m) - 1>> \o Tail(m)

\* m \div 2^k for k <= 7, from the most significant digit down
RECURSIVE ShrR(_, _, _)
ShrR(m, k, r) ==
    IF m = <<>> THEN <<>>
    ELSE LET x == r * 128 + m[Len(m)]
         IN  ShrR(SubSeq(m, 1, Len(m) - 1), k, x % (2 ^ k)) \o <<x \div (2 ^ k)>>
Shr(m, k) == Strip(ShrR(m, k, 0))

\* Value of a digit sequence, capped (for lengths)
Cap == 1000000
RECURSIVE NumR(_)
NumR(m) == IF m = <<>> THEN 0 ELSE Head(m) + 128 * NumR(Tail(m))
Num(m) == IF Len(m) > 3 THEN (IF Len(m) = 4 /\ m[4] < 1 THEN NumR(m) ELSE 2097152) ELSE NumR(m)

----------------------------------------------------------------------------
\* Variable-length integers

Varint(m) ==
    IF m = <<>> THEN <<0>>
    ELSE [i \in 1..Len(m) |-> IF i < Len(m) THEN m[i] + 128 ELSE m[i]]
VarintSize(m) == IF m = <<>> THEN 1 ELSE Len(m)

ZigZag(v) == IF v.s = 0 THEN MulAdd(v.m, 2, 0) ELSE Strip(Pred(MulAdd(v.m, 2, 0)))
UnZigZag(m) ==
    IF m = <<>> \/ Head(m) % 2 = 0 THEN [s |-> 0, m |-> Shr(m, 1)]
    ELSE [s |-> 1, m |-> Shr(MulAdd(m, 1, 1), 1)]

Unsigned == {"u16", "u32", "u64", "u128"}
Signed   == {"i16", "i32", "i64", "i128"}
VarInts  == Unsigned \cup Signed

\* Largest number of bytes, and what the last of them can carry
MaxBytes(k) == CASE k \in {"u16", "i16"} -> 3 [] k \in {"u32", "i32"} -> 5
                 [] k \in {"u64", "i64"} -> 10 [] k \in {"u128", "i128"} -> 19
TopDigit(k) == CASE k \in {"u16", "i16"} -> 3 [] k \in {"u32", "i32"} -> 15
                 [] k \in {"u64", "i64"} -> 1 [] k \in {"u128", "i128"} -> 3

IntDigits(k, v) == IF k \in Unsigned THEN v.m ELSE ZigZag(v)
IntValue(k, m)  == IF k \in Unsigned THEN [s |-> 0, m |-> m] ELSE UnZigZag(m)

----------------------------------------------------------------------------
\* Skip categories

Ints == VarInts \cup {"u8", "i8"}

RECURSIVE Marker(_)
Marker(t) ==
    CASE t.k \in VarInts             -> 0
      [] t.k \in {"bool", "u8", "i8"} -> 2
      [] t.k = "f32"                 -> 3
      [] t.k = "f64"                 -> 4
      [] t.k = "nz" /\ t.e.k \in Ints -> Marker(t.e)
      [] OTHER                       -> 1

\* An optional field carries the category of its content
FieldMarker(t) == IF t.k = "opt" THEN Marker(t.e) ELSE Marker(t)

----------------------------------------------------------------------------
\* Size and encoding.  Size is what a value reports before it is encoded.

RECURSIVE SumSeq(_)
SumSeq(s) ==
    IF s = <<>> THEN 0
    ELSE IF Len(s) = 1 THEN s[1]
    ELSE LET h == Len(s) \div 2 IN SumSeq(SubSeq(s, 1, h)) + SumSeq(SubSeq(s, h + 1, Len(s)))
RECURSIVE Flat(_)
Flat(s) ==
    IF s = <<>> THEN <<>>
    ELSE IF Len(s) = 1 THEN s[1]
    ELSE LET h == Len(s) \div 2 IN Flat(SubSeq(s, 1, h)) \o Flat(SubSeq(s, h + 1, Len(s)))

PrefixSize(n) == VarintSize(Digits(n)) + n

RECURSIVE Size(_, _), SizeRoot(_, _), SizeFields(_, _)
Size(t, v) ==
    CASE t.k \in {"bool", "u8", "i8"} -> 1
      [] t.k = "f32"            -> 4
      [] t.k = "f64"            -> 8
      [] t.k \in VarInts        -> VarintSize(IntDigits(t.k, v))
      [] t.k \in {"string", "bytes"} -> PrefixSize(Len(v))
      [] t.k \in {"vec", "set", "arr"} -> PrefixSize(SumSeq([i \in 1..Len(v) |-> Size(t.e, v[i])]))
      [] t.k = "map" -> PrefixSize(SumSeq([i \in 1..Len(v) |-> Size(t.a, v[i][1]) + Size(t.b, v[i][2])]))
      [] t.k = "opt" -> IF v = <<>> THEN 1 ELSE 1 + Size(t.e, v[1])
      [] t.k \in {"nz", "via"} -> Size(t.e, v)
      [] t.k = "tup" -> SumSeq([i \in 1..Len(v) |-> Size(t.es[i], v[i])])
      [] t.k = "ref" ->
            LET d == Types[t.i] IN
            IF d.k = "struct"
            THEN IF d.shape = "unit" THEN 0 ELSE SizeFields(d.fs, v)
            ELSE LET w == d.vs[v.i]
                 IN  VarintSize(w.id) + (IF w.shape = "unit" THEN 0 ELSE SizeFields(w.fs, v.f))
SizeRoot(t, v) ==
    IF t.k = "tup" /\ ~DevTupleSize THEN PrefixSize(Size(t, v)) ELSE Size(t, v)
SizeFields(fs, v) ==
    1 + SumSeq([i \in 1..Len(fs) |->
        LET t == fs[i].t
            h == VarintSize(MulAdd(fs[i].id, 8, 0))
        IN  IF t.k = "opt" THEN (IF v[i] = <<>> THEN 0 ELSE h + SizeRoot(t.e, v[i][1]))
            ELSE h + SizeRoot(t, v[i])])

Prefixed(n, body) == Varint(Digits(n)) \o body

RECURSIVE Enc(_, _), EncRoot(_, _), EncFields(_, _)
Enc(t, v) ==
    CASE t.k = "bool"           -> <<IF v THEN 1 ELSE 0>>
      [] t.k \in {"u8", "i8"}   -> <<v % 256>>
      [] t.k \in {"f32", "f64"} -> v
      [] t.k \in VarInts        -> Varint(IntDigits(t.k, v))
      [] t.k \in {"string", "bytes"} -> Prefixed(Len(v), v)
      [] t.k \in {"vec", "set", "arr"} ->
            Prefixed(SumSeq([i \in 1..Len(v) |-> Size(t.e, v[i])]),
                     Flat([i \in 1..Len(v) |-> Enc(t.e, v[i])]))
      [] t.k = "map" ->
            Prefixed(SumSeq([i \in 1..Len(v) |-> Size(t.a, v[i][1]) + Size(t.b, v[i][2])]),
                     Flat([i \in 1..Len(v) |-> Enc(t.a, v[i][1]) \o Enc(t.b, v[i][2])]))
      [] t.k = "opt" -> IF v = <<>> THEN <<0>> ELSE <<1>> \o Enc(t.e, v[1])
      [] t.k \in {"nz", "via"} -> Enc(t.e, v)
      [] t.k = "tup" -> Flat([i \in 1..Len(v) |-> Enc(t.es[i], v[i])])
      [] t.k = "ref" ->
            LET d == Types[t.i] IN
            IF d.k = "struct"
            THEN IF d.shape = "unit" THEN <<>> ELSE EncFields(d.fs, v)
            ELSE LET w == d.vs[v.i]
                 IN  Varint(w.id) \o (IF w.shape = "unit" THEN <<>> ELSE EncFields(w.fs, v.f))
EncRoot(t, v) ==
    IF t.k = "tup" THEN Prefixed(Size(t, v), Enc(t, v)) ELSE Enc(t, v)
EncFields(fs, v) ==
    Flat([i \in 1..Len(fs) |->
        LET t == fs[i].t
            h == Varint(MulAdd(fs[i].id, 8, FieldMarker(t)))
        IN  IF t.k = "opt" THEN (IF v[i] = <<>> THEN <<>> ELSE h \o EncRoot(t.e, v[i][1]))
            ELSE h \o EncRoot(t, v[i])]) \o <<0>>

----------------------------------------------------------------------------
\* Equality of values: sets and maps have no order

RECURSIVE Norm(_, _)
NormFields(fs, v) == [i \in 1..Len(fs) |-> Norm(fs[i].t, v[i])]
Norm(t, v) ==
    CASE t.k \in {"vec", "arr"} -> [i \in 1..Len(v) |-> Norm(t.e, v[i])]
      [] t.k = "set" -> {Norm(t.e, v[i]) : i \in 1..Len(v)}
      [] t.k = "map" -> {<<Norm(t.a, v[i][1]), Norm(t.b, v[i][2])>> : i \in 1..Len(v)}
      [] t.k = "opt" -> IF v = <<>> THEN <<>> ELSE <<Norm(t.e, v[1])>>
      [] t.k \in {"nz", "via"} -> Norm(t.e, v)
      [] t.k = "tup" -> [i \in 1..Len(v) |-> Norm(t.es[i], v[i])]
      [] t.k = "ref" ->
            LET d == Types[t.i] IN
            IF d.k = "struct" THEN NormFields(d.fs, v)
            ELSE <<v.i, NormFields(d.vs[v.i].fs, v.f)>>
      [] OTHER -> v

\* Sequence lengths must agree as well, or {x} and <<x, x>> would be the same
RECURSIVE Card(_, _)
CardFields(fs, v) == SumSeq([i \in 1..Len(fs) |-> Card(fs[i].t, v[i])])
Card(t, v) ==
    CASE t.k \in {"vec", "arr", "set"} -> Len(v) + SumSeq([i \in 1..Len(v) |-> Card(t.e, v[i])])
      [] t.k = "map" -> Len(v) + SumSeq([i \in 1..Len(v) |-> Card(t.a, v[i][1]) + Card(t.b, v[i][2])])
      [] t.k = "opt" -> IF v = <<>> THEN 0 ELSE Card(t.e, v[1])
      [] t.k \in {"nz", "via"} -> Card(t.e, v)
      [] t.k = "tup" -> SumSeq([i \in 1..Len(v) |-> Card(t.es[i], v[i])])
      [] t.k = "ref" ->
            LET d == Types[t.i] IN
            IF d.k = "struct" THEN CardFields(d.fs, v) ELSE CardFields(d.vs[v.i].fs, v.f)
      [] OTHER -> 0

SameValue(t, a, b) == Norm(t, a) = Norm(t, b) /\ Card(t, a) = Card(t, b)

----------------------------------------------------------------------------
\* Decoding: bytes b from position p (1-based) up to and excluding e.
\* Result: [st |-> "ok", v, p], [st |-> "err", es] with the set of errors that may be
\* reported, or [st |-> "any"] where the format leaves the outcome open (over-long
\* or overflowing integers, presence bytes other than 0 and 1, repeated fields, repeated keys,
\* fields announced with another category than declared): a value or an error, but no panic.

Ok(v, p) == [st |-> "ok", v |-> v, p |-> p]
Err(x)   == [st |-> "err", es |-> {x}]
Errs(xs) == [st |-> "err", es |-> xs]
AnyOut   == [st |-> "any"]

Short    == <<"short">>       \* ran out of bytes
Zero     == <<"zero">>
BadUtf8  == <<"utf8">>
Whatever == <<"some">>        \* some error

Min(a, b) == IF a < b THEN a ELSE b

RECURSIVE Ends(_, _, _)
Ends(b, p, e) == IF p >= e THEN 0 ELSE IF b[p] < 128 THEN p ELSE Ends(b, p + 1, e)

\* Raw varint: digits as read
DecVarint(k, b, p, e) ==
    LET q == Ends(b, p, Min(e, p + MaxBytes(k))) IN
    IF q = 0 THEN Err(Short)
    ELSE LET m == [i \in 1..(q - p + 1) |-> b[p + i - 1] % 128]
         IN  IF (Len(m) > 1 /\ m[Len(m)] = 0) \/ (Len(m) = MaxBytes(k) /\ m[Len(m)] > TopDigit(k))
             THEN AnyOut
             ELSE Ok(Strip(m), q + 1)

\* UTF-8 as Unicode defines it (no overlongs, no surrogates, up to U+10FFFF)
\* Every lead byte is followed by as many continuation bytes as it announces, and
\* every continuation byte belongs to a lead byte.
Announced(c) ==
    CASE c < 128 -> 0 [] c \in 194..223 -> 1 [] c \in 224..239 -> 2 [] c \in 240..244 -> 3 [] OTHER -> -1
Cont(c) == c \in 128..191
Utf8(s) ==
    \A i \in 1..Len(s) :
        IF s[i] < 128 THEN TRUE
        ELSE IF Cont(s[i]) THEN \E d \in 1..3 : i - d >= 1 /\ Announced(s[i - d]) >= d
        ELSE /\ Announced(s[i]) > 0
             /\ i + Announced(s[i]) <= Len(s)
             /\ \A d \in 1..Announced(s[i]) : Cont(s[i + d])
             /\ (s[i] = 224 => s[i + 1] >= 160)
             /\ (s[i] = 237 => s[i + 1] <= 159)
             /\ (s[i] = 240 => s[i + 1] >= 144)
             /\ (s[i] = 244 => s[i + 1] <= 143)

\* Length prefix: [st, n, p]; the content must fit
DecLen(b, p, e) ==
    LET r == DecVarint("u64", b, p, e) IN
    IF r.st # "ok" THEN r
    ELSE IF Num(r.v) > e - r.p THEN Err(Short)
    ELSE Ok(Num(r.v), r.p)

RECURSIVE Dec(_, _, _, _), DecRoot(_, _, _, _), DecSeq(_, _, _, _, _), DecMap(_, _, _, _, _, _),
          DecArr(_, _, _, _, _, _), DecTup(_, _, _, _, _, _), DecFields(_, _, _, _, _)

Skip(mk, b, p, e) ==
    CASE mk = 0 -> LET q == Ends(b, p, e) IN
                   IF q = 0 THEN Err(Short) ELSE IF q - p >= 19 THEN AnyOut ELSE Ok(0, q + 1)
      [] mk = 1 -> LET r == DecLen(b, p, e) IN IF r.st # "ok" THEN r ELSE Ok(0, r.p + r.v)
      [] mk = 2 -> IF p + 1 > e THEN Err(Short) ELSE Ok(0, p + 1)
      [] mk = 3 -> IF p + 4 > e THEN Err(Short) ELSE Ok(0, p + 4)
      [] mk = 4 -> IF p + 8 > e THEN Err(Short) ELSE Ok(0, p + 8)

Fixed(n, b, p, e) == IF p + n > e THEN Err(Short) ELSE Ok(SubSeq(b, p, p + n - 1), p + n)

IsZero(t, v) == IF t.k \in {"u8", "i8"} THEN v = 0 ELSE IF t.k \in VarInts THEN v.m = <<>> ELSE v = <<>>

Dec(t, b, p, e) ==
    CASE t.k \in {"bool", "u8", "i8"} ->
            IF p >= e THEN Err(Short)
            ELSE IF t.k = "u8" THEN Ok(b[p], p + 1)
            ELSE IF t.k = "i8" THEN Ok(IF b[p] > 127 THEN b[p] - 256 ELSE b[p], p + 1)
            ELSE IF b[p] > 1 THEN AnyOut ELSE Ok(b[p] = 1, p + 1)
      [] t.k = "f32" -> Fixed(4, b, p, e)
      [] t.k = "f64" -> Fixed(8, b, p, e)
      [] t.k \in VarInts ->
            LET r == DecVarint(t.k, b, p, e) IN
            IF r.st # "ok" THEN r ELSE Ok(IntValue(t.k, r.v), r.p)
      [] t.k \in {"string", "bytes"} ->
            LET r == DecLen(b, p, e) IN
            IF r.st # "ok" THEN r
            ELSE LET s == SubSeq(b, r.p, r.p + r.v - 1) IN
                 IF t.k = "string" /\ ~Utf8(s) THEN Err(BadUtf8) ELSE Ok(s, r.p + r.v)
      [] t.k \in {"vec", "set"} ->
            LET r == DecLen(b, p, e) IN
            IF r.st # "ok" THEN r
            ELSE LET x == DecSeq(t.e, b, r.p, r.p + r.v, <<>>) IN
                 IF x.st = "ok" /\ t.k = "set"
                    /\ Cardinality({Norm(t.e, x.v[i]) : i \in 1..Len(x.v)}) < Len(x.v)
                 THEN AnyOut ELSE x
      [] t.k = "map" ->
            LET r == DecLen(b, p, e) IN
            IF r.st # "ok" THEN r
            ELSE LET x == DecMap(t.a, t.b, b, r.p, r.p + r.v, <<>>) IN
                 IF x.st = "ok"
                    /\ Cardinality({Norm(t.a, x.v[i][1]) : i \in 1..Len(x.v)}) < Len(x.v)
                 THEN AnyOut ELSE x
      [] t.k = "arr" ->
            LET r == DecLen(b, p, e) IN
            IF r.st # "ok" THEN r ELSE DecArr(t.e, t.n, b, r.p, r.p + r.v, <<>>)
      [] t.k = "opt" ->
            IF p >= e THEN Err(Short)
            ELSE IF b[p] = 0 THEN Ok(<<>>, p + 1)
            ELSE IF b[p] > 1 THEN AnyOut
            ELSE LET x == Dec(t.e, b, p + 1, e) IN IF x.st = "ok" THEN Ok(<<x.v>>, x.p) ELSE x
      [] t.k = "via" -> Dec(t.e, b, p, e)
      [] t.k = "nz" ->
            LET x == Dec(t.e, b, p, e) IN
            IF x.st = "ok" /\ IsZero(t.e, x.v) THEN Err(Zero) ELSE x
      [] t.k = "tup" -> DecTup(t.es, 1, b, p, e, <<>>)
      [] t.k = "ref" ->
            LET d == Types[t.i] IN
            IF d.k = "struct"
            THEN IF d.shape = "unit" THEN Ok(<<>>, p)
                 ELSE DecFields(d.fs, b, p, e, [i \in 1..Len(d.fs) |-> <<>>])
            ELSE LET r == DecVarint("u32", b, p, e) IN
                 IF r.st # "ok" THEN r
                 ELSE LET is == {i \in 1..Len(d.vs) : d.vs[i].id = r.v} IN
                      IF is = {} THEN Err(<<"variant", r.v>>)
                      ELSE LET i == CHOOSE i \in is : TRUE
                               w == d.vs[i]
                               x == IF w.shape = "unit" THEN Ok(<<>>, r.p)
                                    ELSE DecFields(w.fs, b, r.p, e, [j \in 1..Len(w.fs) |-> <<>>])
                           IN  IF x.st = "ok" THEN Ok([i |-> i, f |-> x.v], x.p) ELSE x

DecSeq(t, b, p, e, acc) ==
    IF p >= e THEN Ok(acc, p)
    ELSE LET x == Dec(t, b, p, e) IN
         IF x.st # "ok" THEN x
         ELSE IF x.p = p THEN AnyOut
         ELSE DecSeq(t, b, x.p, e, Append(acc, x.v))

DecMap(ta, tb, b, p, e, acc) ==
    IF p >= e THEN Ok(acc, p)
    ELSE LET x == Dec(ta, b, p, e) IN
         IF x.st # "ok" THEN x
         ELSE LET y == Dec(tb, b, x.p, e) IN
              IF y.st # "ok" THEN y
              ELSE IF y.p = p THEN AnyOut
              ELSE DecMap(ta, tb, b, y.p, e, Append(acc, <<x.v, y.v>>))

\* Surplus elements are skipped, so that an array may have been larger before
DecArr(t, n, b, p, e, acc) ==
    IF Len(acc) = n THEN Ok(acc, e)
    ELSE IF p >= e THEN Err(Whatever)
    ELSE LET x == Dec(t, b, p, e) IN
         IF x.st # "ok" THEN x
         ELSE IF x.p = p THEN AnyOut
         ELSE DecArr(t, n, b, x.p, e, Append(acc, x.v))

DecTup(ts, i, b, p, e, acc) ==
    IF i > Len(ts) THEN Ok(acc, p)
    ELSE LET x == Dec(ts[i], b, p, e) IN
         IF x.st # "ok" THEN x ELSE DecTup(ts, i + 1, b, x.p, e, Append(acc, x.v))

DecRoot(t, b, p, e) ==
    IF t.k # "tup" THEN Dec(t, b, p, e)
    ELSE LET r == DecVarint("u64", b, p, e) IN
         IF r.st # "ok" THEN r
         ELSE LET x == Dec(t, b, r.p, e) IN
              IF x.st = "err"
              THEN IF Num(r.v) > e - r.p THEN Errs(x.es \cup {Short}) ELSE x
              ELSE IF x.st = "ok" /\ x.p # r.p + Num(r.v) THEN AnyOut
              ELSE x

\* got: per field <<>> or <<value>>
DecFields(fs, b, p, e, got) ==
    LET r == DecVarint("u32", b, p, e) IN
    IF r.st # "ok" THEN r
    ELSE LET mk == IF r.v = <<>> THEN 0 ELSE r.v[1] % 8
             id == Shr(r.v, 3)
         IN
         IF mk > 4 THEN Err(<<"enc", r.v>>)
         ELSE IF id = <<>> THEN
            IF mk # 0 THEN AnyOut
            ELSE LET miss == {i \in 1..Len(fs) : got[i] = <<>> /\ fs[i].t.k # "opt"} IN
                 IF miss # {} THEN Errs({<<"missing", fs[i].id, fs[i].n>> : i \in miss})
                 ELSE Ok([i \in 1..Len(fs) |-> IF fs[i].t.k = "opt" THEN got[i] ELSE got[i][1]], r.p)
         ELSE LET is == {i \in 1..Len(fs) : fs[i].id = id} IN
              IF is = {} THEN
                 LET x == Skip(mk, b, r.p, e) IN
                 IF x.st # "ok" THEN x ELSE DecFields(fs, b, x.p, e, got)
              ELSE LET i == CHOOSE i \in is : TRUE
                       t == fs[i].t
                   IN  IF mk # FieldMarker(t) \/ got[i] # <<>> THEN AnyOut
                       ELSE LET x == DecRoot(IF t.k = "opt" THEN t.e ELSE t, b, r.p, e) IN
                            IF x.st # "ok" THEN x
                            ELSE DecFields(fs, b, x.p, e, [got EXCEPT ![i] = <<x.v>>])

Decode(t, b) == Dec(t, b, 1, Len(b) + 1)

----------------------------------------------------------------------------
\* Types whose messages end with an end marker (no proper prefix is a message)

EndsWithMarker(t) ==
    t.k = "ref" /\ LET d == Types[t.i] IN d.k = "struct" /\ d.shape # "unit"

\* Observed outcome o of decoding: [st |-> "ok", v, rest] or [st |-> "err", e] against a result
SameErr(x, o) ==
    \/ x = Whatever
    \/ x = Short /\ o[1] \in {"InsufficientData", "DecodeInt"}
    \/ x = Zero /\ o[1] = "Zero"
    \/ x = BadUtf8 /\ o[1] = "NonUtf8"
    \/ x[1] = "missing" /\ o[1] = "MissingField" /\ o[2] = x[2] /\ o[3] = x[3]
    \/ x[1] = "variant" /\ o[1] = "UnknownVariant" /\ o[2] = x[2]
    \/ x[1] = "enc" /\ o[1] = "UnknownEncoding"

Allowed(t, b, r, o) ==
    CASE r.st = "any" -> o.st \in {"ok", "err"}
      [] r.st = "ok"  -> o.st = "ok" /\ o.rest = Len(b) + 1 - r.p /\ SameValue(t, r.v, o.v)
      [] r.st = "err" -> o.st = "err" /\ \E x \in r.es : SameErr(x, o.e)

----------------------------------------------------------------------------
\* Schema evolution: what a reader with declaration table index r obtains from a value written
\* with type w.  [st |-> "ok", v], [st |-> "err", es], or [st |-> "open"] where the
\* types are not related by evolution steps.

RECURSIVE Project(_, _, _), ProjectFields(_, _, _)

\* Fields without length prefix although announced as length prefixed: a reader that does
\* not know them cannot skip them (known deviation, see DESIGN.md)
Skippable(t) ==
    LET u == IF t.k = "opt" THEN t.e ELSE t
    IN  ~DevSkip \/ Marker(u) # 1 \/ u.k \in {"string", "bytes", "vec", "set", "map", "arr", "tup"}
        \/ (u.k = "nz" /\ u.e.k # "via")

SeqProject(ws, rs, v) ==
    LET x == TLCEval([i \in 1..Len(v) |-> Project(ws[i], rs[i], v[i])]) IN
    IF \E i \in 1..Len(v) : x[i].st = "open" THEN [st |-> "open"]
    ELSE IF \E i \in 1..Len(v) : x[i].st = "err"
    THEN [st |-> "err", es |-> UNION {x[i].es : i \in {j \in 1..Len(v) : x[j].st = "err"}}]
    ELSE [st |-> "ok", v |-> TLCEval([i \in 1..Len(v) |-> x[i].v])]

ProjectFields(wf, rf, v) ==
    LET present == {i \in 1..Len(wf) : ~(wf[i].t.k = "opt" /\ v[i] = <<>>)}
        sent(j) == {i \in present : wf[i].id = rf[j].id}
        strip(t) == IF t.k = "opt" THEN t.e ELSE t
        val(i)  == IF wf[i].t.k = "opt" THEN v[i][1] ELSE v[i]
        one(j)  ==
            IF sent(j) # {} THEN
                LET i == CHOOSE i \in sent(j) : TRUE
                    x == Project(strip(wf[i].t), strip(rf[j].t), val(i))
                IN  IF x.st = "ok" /\ rf[j].t.k = "opt" THEN [st |-> "ok", v |-> <<x.v>>] ELSE x
            ELSE IF rf[j].t.k = "opt" THEN [st |-> "ok", v |-> <<>>]
            ELSE [st |-> "err", es |-> {<<"missing", rf[j].id, rf[j].n>>}]
        x == TLCEval([j \in 1..Len(rf) |-> one(j)])
        unknown == {i \in present : \A j \in 1..Len(rf) : rf[j].id # wf[i].id}
    IN
    IF (\E i \in unknown : ~Skippable(wf[i].t)) \/ (\E j \in 1..Len(rf) : x[j].st = "open")
    THEN [st |-> "open"]
    ELSE IF \E j \in 1..Len(rf) : x[j].st = "err"
    THEN [st |-> "err", es |-> UNION {x[j].es : j \in {k \in 1..Len(rf) : x[k].st = "err"}}]
    ELSE [st |-> "ok", v |-> TLCEval([j \in 1..Len(rf) |-> x[j].v])]

Project(w, r, v) ==
    IF w.k # r.k THEN [st |-> "open"]
    ELSE CASE w.k \in {"vec", "arr", "set"} ->
            IF w.k = "arr" /\ w.n # r.n THEN
                IF w.n < r.n THEN [st |-> "err", es |-> {Whatever}]
                ELSE SeqProject([i \in 1..r.n |-> w.e], [i \in 1..r.n |-> r.e], SubSeq(v, 1, r.n))
            ELSE SeqProject([i \in 1..Len(v) |-> w.e], [i \in 1..Len(v) |-> r.e], v)
      [] w.k = "map" ->
            LET a == SeqProject([i \in 1..Len(v) |-> w.a], [i \in 1..Len(v) |-> r.a], [i \in 1..Len(v) |-> v[i][1]])
                b == SeqProject([i \in 1..Len(v) |-> w.b], [i \in 1..Len(v) |-> r.b], [i \in 1..Len(v) |-> v[i][2]])
            IN  IF a.st # "ok" THEN a ELSE IF b.st # "ok" THEN b
                ELSE [st |-> "ok", v |-> [i \in 1..Len(v) |-> <<a.v[i], b.v[i]>>]]
      [] w.k = "opt" ->
            IF v = <<>> THEN [st |-> "ok", v |-> <<>>]
            ELSE LET x == Project(w.e, r.e, v[1]) IN IF x.st = "ok" THEN [st |-> "ok", v |-> <<x.v>>] ELSE x
      [] w.k \in {"nz", "via"} -> Project(w.e, r.e, v)
      [] w.k = "tup" -> IF Len(w.es) # Len(r.es) THEN [st |-> "open"] ELSE SeqProject(w.es, r.es, v)
      [] w.k = "ref" ->
            LET d == Types[w.i]
                f == Types[r.i]
            IN
            IF d.k # f.k THEN [st |-> "open"]
            ELSE IF d.k = "struct" THEN
                IF (d.shape = "unit") # (f.shape = "unit") THEN [st |-> "open"]
                ELSE ProjectFields(d.fs, f.fs, v)
            ELSE LET x  == d.vs[v.i]
                     is == {i \in 1..Len(f.vs) : f.vs[i].id = x.id}
                 IN  IF is = {} THEN [st |-> "err", es |-> {<<"variant", x.id>>}]
                     ELSE LET i == CHOOSE i \in is : TRUE
                              y == IF (x.shape = "unit") # (f.vs[i].shape = "unit") THEN [st |-> "open"]
                                   ELSE ProjectFields(x.fs, f.vs[i].fs, v.f)
                          IN  IF y.st = "ok" THEN [st |-> "ok", v |-> [i |-> i, f |-> y.v]] ELSE y
      [] OTHER -> [st |-> "ok", v |-> v]
=============================================================================
