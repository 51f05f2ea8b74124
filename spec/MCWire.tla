-------------------------------- MODULE MCWire --------------------------------
(***************************************************************************)
(* A writer that may deviate from the message it ought to write in one     *)
(* place: fields in another order, a field unknown to the reader, a        *)
(* mandatory field left out, an undeclared variant, an undefined skip      *)
(* category, a zero or empty non-zero value, malformed UTF-8, or the end   *)
(* of the message missing.  Nested messages and the length prefixes around *)
(* them are otherwise well formed.                                         *)
(*                                                                         *)
(* TLC explores every such message of every given value, checks that the   *)
(* format as specified detects the fault (or, where interoperability       *)
(* demands it, still yields the value), and prints the messages so that    *)
(* they can be fed to the implementation.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

TheTypes == JsonDeserialize(IOEnv.TYPES)
Cases    == ndJsonDeserialize(IOEnv.CASES)
Emitting == IOEnv.EMIT = "1"

W == INSTANCE Wire WITH Types <- TheTypes, DevTupleSize <- FALSE, DevSkip <- FALSE

Ref(i) == [k |-> "ref", i |-> i]

Same    == [k |-> "same"]
Changed == [k |-> "changed"]
M(tag, b) == [tag |-> tag, b |-> b]
Wrap(ms, n(_)) == {[m EXCEPT !.b = n(m.b)] : m \in ms}

BadStrings ==
    { <<255>>, <<97, 192, 175>>, <<237, 160, 128>>, <<226, 130>>, <<244, 144, 128, 128>>, <<128, 97>> }
ZeroBytes(e) == IF e.k \in W!VarInts \cup {"u8", "i8"} THEN <<0>> ELSE <<0>>

Payload(mk) ==
    CASE mk = 0 -> {<<0>>, <<128, 1>>, <<255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 3>>}
      [] mk = 1 -> {<<0>>, <<3, 0, 8, 255>>}
      [] mk = 2 -> {<<0>>, <<255>>}
      [] mk = 3 -> {<<0, 0, 128, 9>>}
      [] mk = 4 -> {<<9, 0, 128, 255, 0, 0, 0, 1>>}

\* numbers not in use among fields or variants
FreeIds(fs) ==
    LET used == {fs[i].id : i \in 1..Len(fs)}
        small == {n \in 1..(Len(fs) + 1) : W!Digits(n) \notin used}
    IN  {W!Digits(CHOOSE n \in small : \A m \in small : n <= m)}
        \cup ({<<1, 0, 0, 0, 1>>, <<127, 127, 127, 127, 1>>, <<0, 1>>} \ used)

Swap(n, a, b) == [i \in 1..n |-> IF i = a THEN b ELSE IF i = b THEN a ELSE i]
Orders(n) ==
    {[i \in 1..n |-> n + 1 - i]} \cup {[i \in 1..n |-> (i % n) + 1]}
    \cup {Swap(n, a, a + 1) : a \in 1..(n - 1)}

Prefix(b) == W!Varint(W!Digits(Len(b))) \o b

RECURSIVE Muts(_, _), MutsRoot(_, _), MutsFields(_, _), SeqMuts(_, _)

\* one element of a sequence of encodings is off
SeqMuts(encs, ms) ==
    UNION {LET pre  == W!Flat(SubSeq(encs, 1, i - 1))
               post == W!Flat(SubSeq(encs, i + 1, Len(encs)))
           IN  {[m EXCEPT !.b = pre \o m.b \o post] : m \in ms[i]} : i \in 1..Len(encs)}

Muts(t, v) ==
    CASE t.k = "string" -> {M([k |-> "utf8"], Prefix(v \o x)) : x \in BadStrings}
      [] t.k = "nz" -> {M([k |-> "zero"], ZeroBytes(t.e))} \cup Muts(t.e, v)
      [] t.k = "via" -> Muts(t.e, v)
      [] t.k \in {"vec", "arr"} ->
            LET encs == [i \in 1..Len(v) |-> W!Enc(t.e, v[i])]
            IN  {[m EXCEPT !.b = Prefix(m.b)] : m \in SeqMuts(encs, [i \in 1..Len(v) |-> Muts(t.e, v[i])])}
                \cup (IF t.k = "arr"
                      THEN {M([k |-> "count"], Prefix(W!Flat(SubSeq(encs, 1, n)))) : n \in 0..(Len(v) - 1)}
                           \cup {M(Same, Prefix(W!Flat(encs) \o encs[Len(v)]))}
                      ELSE {})
      [] t.k = "map" ->
            LET n == Len(v)
                encs == [i \in 1..(2 * n) |-> IF i % 2 = 1 THEN W!Enc(t.a, v[(i + 1) \div 2][1]) ELSE W!Enc(t.b, v[i \div 2][2])]
                ms == [i \in 1..(2 * n) |-> IF i % 2 = 1 THEN {} ELSE Muts(t.b, v[i \div 2][2])]
            IN  {[m EXCEPT !.b = Prefix(m.b)] : m \in SeqMuts(encs, ms)}
      [] t.k = "opt" -> IF v = <<>> THEN {} ELSE {[m EXCEPT !.b = <<1>> \o m.b] : m \in Muts(t.e, v[1])}
      [] t.k = "tup" ->
            SeqMuts([i \in 1..Len(v) |-> W!Enc(t.es[i], v[i])], [i \in 1..Len(v) |-> Muts(t.es[i], v[i])])
      [] t.k = "ref" ->
            LET d == TheTypes[t.i] IN
            IF d.k = "struct" THEN (IF d.shape = "unit" THEN {} ELSE MutsFields(d.fs, v))
            ELSE LET w == d.vs[v.i]
                     body == IF w.shape = "unit" THEN <<>> ELSE W!EncFields(w.fs, v.f)
                 IN  {M([k |-> "variant", id |-> id], W!Varint(id) \o body) : id \in FreeIds(d.vs)}
                     \cup (IF w.shape = "unit" THEN {}
                           ELSE {[m EXCEPT !.b = W!Varint(w.id) \o m.b] : m \in MutsFields(w.fs, v.f)})
      [] OTHER -> {}

MutsRoot(t, v) ==
    IF t.k = "tup" THEN {[m EXCEPT !.b = Prefix(m.b)] : m \in Muts(t, v)} ELSE Muts(t, v)

MutsFields(fs, v) ==
    LET n == Len(fs)
        absent(i) == fs[i].t.k = "opt" /\ v[i] = <<>>
        ty(i)   == IF fs[i].t.k = "opt" THEN fs[i].t.e ELSE fs[i].t
        val(i)  == IF fs[i].t.k = "opt" THEN v[i][1] ELSE v[i]
        head(i) == W!Varint(W!MulAdd(fs[i].id, 8, W!FieldMarker(fs[i].t)))
        body(i) == W!EncRoot(ty(i), val(i))
        part    == [i \in 1..n |-> IF absent(i) THEN <<>> ELSE head(i) \o body(i)]
        all     == W!Flat(part)
        upTo(i) == W!Flat(SubSeq(part, 1, i))
        from(i) == W!Flat(SubSeq(part, i, n))
    IN  \* order
        {M(Same, W!Flat([i \in 1..n |-> part[o[i]]]) \o <<0>>) : o \in Orders(n)}
        \* a field of a newer schema
        \cup UNION {UNION {UNION {
                {M(Same, upTo(i) \o W!Varint(W!MulAdd(id, 8, mk)) \o p \o from(i + 1) \o <<0>>) : p \in Payload(mk)}
                    : mk \in 0..4} : id \in FreeIds(fs)} : i \in {0, n \div 2, n}}
        \* undefined category on a known and on an unknown field
        \cup {M([k |-> "enc"], upTo(n \div 2) \o W!Varint(W!MulAdd(id, 8, mk)) \o <<0>> \o from((n \div 2) + 1) \o <<0>>)
                : id \in FreeIds(fs), mk \in 5..7}
        \cup {M([k |-> "enc"], upTo(i - 1) \o W!Varint(W!MulAdd(fs[i].id, 8, 7)) \o (IF absent(i) THEN <<0>> ELSE body(i)) \o from(i + 1) \o <<0>>)
                : i \in 1..n}
        \* left out
        \cup {M(IF fs[i].t.k = "opt" THEN Changed ELSE [k |-> "missing", id |-> fs[i].id, n |-> fs[i].n],
                 upTo(i - 1) \o from(i + 1) \o <<0>>) : i \in {j \in 1..n : ~absent(j)}}
        \cup {M(IF \A i \in 1..n : fs[i].t.k = "opt" THEN Changed ELSE [k |-> "missingany"], <<0>>)}
        \* the fault is inside of a field
        \cup UNION {{[m EXCEPT !.b = upTo(i - 1) \o head(i) \o m.b \o from(i + 1) \o <<0>>] : m \in MutsRoot(ty(i), val(i))}
                        : i \in {j \in 1..n : ~absent(j)}}

Cuts(b) == {M([k |-> "cut"], SubSeq(b, 1, n)) : n \in 0..(Len(b) - 1)}

VARIABLES cs, m
vars == <<cs, m>>

Type(c)  == Ref(Cases[c].t)
Value(c) == Cases[c].v
Whole(c) == W!Enc(Type(c), Value(c))

Emit(x) ==
    IF Emitting THEN PrintT("CASE " \o ToJson([t |-> Cases[cs].t, k |-> x.tag.k, b |-> x.b])) ELSE TRUE

Init == cs \in 1..Len(Cases) /\ m = M([k |-> "whole"], Whole(cs))
Write(tag) ==
    /\ m.tag.k = "whole"
    /\ \E x \in (IF tag = "cut" THEN Cuts(m.b) ELSE Muts(Type(cs), Value(cs))) : m' = x /\ Emit(x)
    /\ UNCHANGED cs
Next == \E tag \in (IF IOEnv.KIND = "cut" THEN {"cut"} ELSE IF IOEnv.KIND = "mut" THEN {"mut"} ELSE {"mut", "cut"}) : Write(tag)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* What the format guarantees (for the declared type and the value at hand)

R == W!Decode(Type(cs), m.b)
Whole1 == m.tag.k = "whole" =>
    /\ R.st = "ok" /\ W!SameValue(Type(cs), R.v, Value(cs)) /\ R.p = Len(m.b) + 1
    /\ W!Size(Type(cs), Value(cs)) = Len(m.b)
SameValue1 == m.tag.k = "same" => R.st = "ok" /\ W!SameValue(Type(cs), R.v, Value(cs)) /\ R.p = Len(m.b) + 1
Detected ==
    CASE m.tag.k = "missing" -> R.st = "err" /\ <<"missing", m.tag.id, m.tag.n>> \in R.es
      [] m.tag.k = "missingany" -> R.st = "err" /\ \A x \in R.es : x[1] = "missing"
      [] m.tag.k = "variant" -> R.st = "err" /\ R.es = {<<"variant", m.tag.id>>}
      [] m.tag.k = "enc"  -> R.st = "err" /\ \A x \in R.es : x[1] = "enc"
      [] m.tag.k = "zero" -> R.st = "err" /\ R.es = {W!Zero}
      [] m.tag.k = "utf8" -> R.st = "err" /\ R.es = {W!BadUtf8}
      [] m.tag.k = "count" -> R.st = "err" /\ R.es = {W!Whatever}
      [] m.tag.k = "cut"  -> (W!EndsWithMarker(Type(cs)) => R.st = "err")
      [] OTHER -> TRUE
\* skipping needs nothing but the category: a reader without any field gets through
=============================================================================
