---------------------------------- MODULE Meta ----------------------------------
(***************************************************************************)
(* The sizes that values of a type can have, as derived from the wire      *)
(* format: the least and the greatest number of bytes.                     *)
(* Types as in Wire; "ref" is any type that is declared elsewhere.         *)
(***************************************************************************)
EXTENDS Wire, TLC

None == -1        \* no upper bound

Sum2(a, b) == IF a = None \/ b = None THEN None ELSE a + b
Mul2(n, a) == IF a = None THEN (IF n = 0 THEN 0 ELSE None) ELSE n * a
Behind(n) == IF n = None THEN None ELSE PrefixSize(n)

RECURSIVE SumLo(_), SumHi(_)
SumLo(s) == IF s = <<>> THEN 0 ELSE Head(s).lo + SumLo(Tail(s))
SumHi(s) == IF s = <<>> THEN 0 ELSE Sum2(Head(s).hi, SumHi(Tail(s)))

B(lo, hi) == [lo |-> lo, hi |-> hi]

RECURSIVE Bounds(_)
\* a value within another one
Bounds(t) ==
    CASE t.k \in {"bool", "u8", "i8"} -> B(1, 1)
      [] t.k = "f32" -> B(4, 4)
      [] t.k = "f64" -> B(8, 8)
      [] t.k \in VarInts -> B(1, MaxBytes(t.k))
      [] t.k \in {"string", "bytes", "vec", "set", "map"} -> B(1, None)
      [] t.k = "opt" -> B(1, Sum2(1, Bounds(t.e).hi))
      [] t.k = "nz" ->
            (CASE t.e.k \in {"string", "bytes"} -> B(2, None)
               [] t.e.k \in {"vec", "set"} -> B(PrefixSize(Bounds(t.e.e).lo), None)
               [] t.e.k = "map" -> B(PrefixSize(Bounds(t.e.a).lo + Bounds(t.e.b).lo), None)
               [] OTHER -> Bounds(t.e))
      [] t.k = "arr" -> LET b == Bounds(t.e) IN B(PrefixSize(t.n * b.lo), Behind(Mul2(t.n, b.hi)))
      [] t.k = "tup" -> LET bs == [i \in 1..Len(t.es) |-> Bounds(t.es[i])] IN B(SumLo(bs), SumHi(bs))
      [] t.k = "ref" -> B(0, None)

\* a value of a field, where a tuple has a length of its own and an option that is absent takes nothing
RootBounds(t) ==
    CASE t.k = "tup" -> LET b == Bounds(t) IN B(PrefixSize(b.lo), Behind(b.hi))
      [] t.k = "opt" -> B(0, LET e == t.e IN IF e.k = "tup" THEN Behind(Bounds(e).hi) ELSE Bounds(e).hi)
      [] OTHER -> Bounds(t)

----------------------------------------------------------------------------
\* What is shown for a type: [label, lo, hi, inner], or [label |-> "unknown"]; inner is a sequence of [name, size]

Unknown(s) == s.label = "unknown"
Holds(s, b) == /\ s.lo <= b.lo
               /\ s.hi = None \/ (b.hi # None /\ s.hi >= b.hi)

Entry(s, n) == {s.inner[i].size : i \in {j \in 1..Len(s.inner) : s.inner[j].name = n}}
Length == [k |-> "u64"]

RECURSIVE ShownFor(_, _, _)
Part(s, n, t, root) == Cardinality(Entry(s, n)) = 1 /\ \A x \in Entry(s, n) : ShownFor(x, t, root)
ShownFor(s, t, root) ==
    IF t.k = "ref" THEN Unknown(s)
    ELSE /\ ~Unknown(s)
         /\ Holds(s, IF root THEN RootBounds(t) ELSE Bounds(t))
         /\ CASE t.k \in {"vec", "set"} -> Part(s, "element", t.e, FALSE)
              [] t.k = "arr" -> /\ Part(s, "element", t.e, FALSE)
                                /\ LET b == Bounds(t.e)
                                       lens == B(VarintSize(Digits(t.n * b.lo)), IF b.hi = None THEN 10 ELSE VarintSize(Digits(t.n * b.hi)))
                                   IN  \A x \in Entry(s, "length") : Holds(x, lens)
              [] t.k = "map" -> Part(s, "key", t.a, FALSE) /\ Part(s, "value", t.b, FALSE)
              [] t.k \in {"opt", "nz"} -> Part(s, "value", t.e, root)
              [] t.k = "tup" -> \A i \in 1..Len(t.es) : Part(s, ToString(i - 1), t.es[i], FALSE)
              [] OTHER -> TRUE

----------------------------------------------------------------------------
\* The same for types as schemas write them ("strref", ..., "ext")

\* N reads the number of elements of an array
OnWire(ty, N(_)) ==
    LET RECURSIVE go(_)
        go(t) ==
            CASE t.k \in {"strref", "boxstr"} -> [k |-> "string"]
              [] t.k \in {"bytesref", "boxbytes"} -> [k |-> "bytes"]
              [] t.k \in {"vec", "set", "opt", "nz"} -> [k |-> t.k, e |-> go(t.e)]
              [] t.k = "map" -> [k |-> "map", a |-> go(t.a), b |-> go(t.b)]
              [] t.k = "arr" -> [k |-> "arr", e |-> go(t.e), n |-> N(t.n)]
              [] t.k = "tup" -> [k |-> "tup", es |-> [i \in 1..Len(t.es) |-> go(t.es[i])]]
              [] t.k = "ext" -> [k |-> "ref"]
              [] OTHER -> [k |-> t.k]
    IN  go(ty)

CalledSpecially == [strref |-> "&string", bytesref |-> "&bytes", boxstr |-> "box<string>", boxbytes |-> "box<bytes>", set |-> "hash_set",
                    map |-> "hash_map", opt |-> "option", nz |-> "non_zero", arr |-> "array", tup |-> "tuple"]
Called(k) == IF k \in DOMAIN CalledSpecially THEN CalledSpecially[k] ELSE k
\* the parts of a type and what they are called, "" for those that are no types
PartsOf(t) ==
    CASE t.k \in {"vec", "set", "arr"} -> <<<<"length">>, <<"element", t.e>>>>
      [] t.k = "map" -> <<<<"length">>, <<"key", t.a>>, <<"value", t.b>>>>
      [] t.k \in {"opt", "nz"} -> <<<<"value", t.e>>>>
      [] t.k = "tup" -> [i \in 1..Len(t.es) |-> <<ToString(i - 1), t.es[i]>>]
      [] OTHER -> <<>>
RECURSIVE Labelled(_, _)
Labelled(s, t) ==
    IF t.k = "ext" THEN Unknown(s)
    ELSE LET ps == PartsOf(t) IN
         /\ s.label = Called(t.k)
         /\ Len(s.inner) = Len(ps)
         /\ \A i \in 1..Len(ps) : /\ s.inner[i].name = ps[i][1]
                                  /\ IF Len(ps[i]) = 2 THEN Labelled(s.inner[i].size, ps[i][2]) ELSE s.inner[i].size.label = "u64"

\* Everything said about the size of a field.  Whether the length of a tuple is part of it is decided by M01.
SizeOf(s, t, N(_), big) ==
    /\ Labelled(s, t)
    /\ big \/ LET w == OnWire(t, N) IN ShownFor(s, w, TRUE) \/ ShownFor(s, w, FALSE)
=============================================================================
