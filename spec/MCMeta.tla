--------------------------------- MODULE MCMeta ---------------------------------
(***************************************************************************)
(* Every type up to some depth, with the law that the bounds of its sizes  *)
(* are kept by its values and reached by some of them.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

TheTypes == <<[k |-> "struct", shape |-> "unit", fs |-> <<>>]>>
M == INSTANCE Meta WITH Types <- TheTypes, DevTupleSize <- FALSE, DevSkip <- FALSE

Depth == atoi(IOEnv.DEPTH)

P(k) == [k |-> k]
Keys == {"bool", "u8", "i8", "string", "bytes"} \cup M!VarInts
Base == {P(k) : k \in Keys \cup {"f32", "f64"}} \cup {[k |-> "ref", i |-> 1]}
Solid(t) == t.k # "ref"

RECURSIVE Height(_)
Height(t) == CASE t.k \in {"vec", "set", "opt", "nz", "arr"} -> 1 + Height(t.e)
               [] t.k = "map" -> 1 + (IF Height(t.a) > Height(t.b) THEN Height(t.a) ELSE Height(t.b))
               [] t.k = "tup" -> 1 + (CHOOSE m \in {Height(t.es[i]) : i \in 1..Len(t.es)} : \A i \in 1..Len(t.es) : Height(t.es[i]) <= m)
               [] OTHER -> 0

Wrap(t) ==
    {[k |-> "opt", e |-> t]}
    \cup (IF Solid(t) THEN {[k |-> "vec", e |-> t]} \cup {[k |-> "map", a |-> P("u8"), b |-> t]} ELSE {})
    \cup {[k |-> "arr", e |-> t, n |-> n] : n \in (IF Height(t) = 0 THEN {1, 2, 7, 15, 16, 26, 127, 128, 130} ELSE {1, 2, 16})}
    \cup (IF t.k \in Keys THEN {[k |-> "set", e |-> t], [k |-> "map", a |-> t, b |-> P("f64")]} ELSE {})
    \cup (IF t.k \in (Keys \ {"bool"}) \cup {"vec", "map", "set"} THEN {[k |-> "nz", e |-> t]} ELSE {})
    \cup {[k |-> "tup", es |-> <<t, P("u32")>>], [k |-> "tup", es |-> <<P("string"), t, P("bool")>>]}

Top(k) == M!IntValue(k, [i \in 1..M!MaxBytes(k) |-> IF i < M!MaxBytes(k) THEN 127 ELSE M!TopDigit(k)])

RECURSIVE Least(_), Most(_)
Least(t) ==
    CASE t.k = "bool" -> FALSE
      [] t.k \in {"u8", "i8"} -> 0
      [] t.k \in M!VarInts -> [s |-> 0, m |-> <<>>]
      [] t.k = "f32" -> <<0, 0, 0, 0>>
      [] t.k = "f64" -> <<0, 0, 0, 0, 0, 0, 0, 0>>
      [] t.k \in {"string", "bytes", "vec", "set", "map", "opt"} -> <<>>
      [] t.k = "nz" ->
            (CASE t.e.k \in {"string", "bytes"} -> <<97>>
               [] t.e.k \in {"vec", "set"} -> <<Least(t.e.e)>>
               [] t.e.k = "map" -> <<<<Least(t.e.a), Least(t.e.b)>>>>
               [] t.e.k \in {"u8", "i8"} -> 1
               [] OTHER -> [s |-> 0, m |-> <<1>>])
      [] t.k = "arr" -> [i \in 1..t.n |-> Least(t.e)]
      [] t.k = "tup" -> [i \in 1..Len(t.es) |-> Least(t.es[i])]
      [] t.k = "ref" -> <<>>
\* the greatest where there is one, some long value otherwise
Most(t) ==
    CASE t.k = "bool" -> TRUE
      [] t.k = "u8" -> 255
      [] t.k = "i8" -> 127
      [] t.k \in M!VarInts -> Top(t.k)
      [] t.k \in {"f32", "f64", "ref"} -> Least(t)
      [] t.k \in {"string", "bytes"} -> [i \in 1..200 |-> 97]
      [] t.k \in {"vec", "set"} -> <<Most(t.e), Least(t.e)>>
      [] t.k = "map" -> <<<<Most(t.a), Most(t.b)>>>>
      [] t.k = "opt" -> <<Most(t.e)>>
      [] t.k = "nz" -> Most(t.e)
      [] t.k = "arr" -> [i \in 1..t.n |-> Most(t.e)]
      [] t.k = "tup" -> [i \in 1..Len(t.es) |-> Most(t.es[i])]

VARIABLE ty
Init == ty \in Base
Next == Height(ty) < Depth /\ ty' \in Wrap(ty)
Spec == Init /\ [][Next]_ty

Within(n, b) == b.lo <= n /\ (b.hi = M!None \/ n <= b.hi)
\* as a field: an absent option takes nothing
FieldSize(t, v) == IF t.k = "opt" THEN (IF v = <<>> THEN 0 ELSE M!SizeRoot(t.e, v[1])) ELSE M!SizeRoot(t, v)
Kept == \A v \in {Least(ty), Most(ty)} : Within(M!Size(ty, v), M!Bounds(ty)) /\ Within(FieldSize(ty, v), M!RootBounds(ty))
Reached == /\ M!Size(ty, Least(ty)) = M!Bounds(ty).lo /\ FieldSize(ty, Least(ty)) = M!RootBounds(ty).lo
           /\ M!Bounds(ty).hi # M!None => M!Size(ty, Most(ty)) = M!Bounds(ty).hi /\ FieldSize(ty, Most(ty)) = M!RootBounds(ty).hi
Encoded == Height(ty) > 1 \/ \A v \in {Least(ty), Most(ty)} : Len(M!Enc(ty, v)) = M!Size(ty, v)
Emit == PrintT("CASE " \o ToJson(ty))
=============================================================================
