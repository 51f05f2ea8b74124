------------------------------- MODULE MCTypes -------------------------------
(***************************************************************************)
(* Every documented type up to some depth: each built-in type, wrapped in  *)
(* each constructor at each of its positions, and so on.  Pair is a struct *)
(* with two generics, Plain one without any.                               *)
(* GENERIC = 1: every type that uses a generic T, in every position        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CodeGen

Bytes == IOEnv.BYTES = "1"
Depth == atoi(IOEnv.DEPTH)

Generic == "GENERIC" \in DOMAIN IOEnv /\ IOEnv.GENERIC = "1"

P(k) == [k |-> k]
Base == {P(k) : k \in Prims \cup {"string", "strref", "bytes", "bytesref", "boxstr", "boxbytes"}}
        \cup {[k |-> "ext", path |-> <<>>, name |-> "Plain", ts |-> <<>>]}

Wrap(t) ==
    {[k |-> c, e |-> t] : c \in {"vec", "set", "opt", "nz"}}
    \cup {[k |-> "arr", e |-> t, n |-> "3"], [k |-> "map", a |-> t, b |-> P("u8")], [k |-> "map", a |-> P("u8"), b |-> t],
          [k |-> "tup", es |-> <<t, P("u32")>>], [k |-> "tup", es |-> <<P("bool"), P("string"), t>>],
          [k |-> "ext", path |-> <<>>, name |-> "Pair", ts |-> <<t, P("u16")>>]}

RECURSIVE Height(_)
Height(t) == LET s == {Height(Inner(t)[i]) : i \in 1..Len(Inner(t))}
             IN  IF s = {} THEN 0 ELSE 1 + (CHOOSE m \in s : \A x \in s : x <= m)

VARIABLE ty
Emit(t) == PrintT("CASE " \o ToJson(t))
Fit(t) == IF Generic THEN (t.k = "nz" => t.e.k \in {"vec", "set", "map"}) ELSE Documented(t, Bytes)
Init == ty \in (IF Generic THEN {[k |-> "ext", path |-> <<>>, name |-> "T", ts |-> <<>>]} ELSE {t \in Base : Fit(t)}) /\ Emit(ty)
Next == /\ Height(ty) < Depth
        /\ \E t \in Wrap(ty) : Fit(t) /\ ty' = t /\ Emit(t)
Spec == Init /\ [][Next]_ty

\* keys and arguments are documented types in their own right
Laws == Generic \/
        /\ (Hashable(ty, Bytes) => \A p \in Parts(ty) : Hashable(p, Bytes) \/ p.k \in {"f32", "f64"})
        /\ (\A p \in Parts(ty) : Documented(p, Bytes))
=============================================================================
