-------------------------------- MODULE MCGo --------------------------------
(***************************************************************************)
(* Every identifier up to some length over few letters, and its names in   *)
(* Go.  The laws: the words lose nothing but underscores, and the same     *)
(* words give names that differ only in case and underscores.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, GoGen

Depth == atoi(IOEnv.DEPTH)
Letters == {"a", "b", "A", "B", "1", "_"}

RECURSIVE Bare(_)
Bare(s) == IF Len(s) = 0 THEN "" ELSE (IF SubSeq(s, 1, 1) = "_" THEN "" ELSE SubSeq(s, 1, 1)) \o Bare(SubSeq(s, 2, Len(s)))
Flat(s) == LowS(Bare(s))
Kind(s) == IF \A i \in 1..Len(s) : ~IsUpper(SubSeq(s, i, i)) THEN "lower"
           ELSE IF \A i \in 1..Len(s) : SubSeq(s, i, i) # "_" THEN "type"
           ELSE IF \A i \in 1..Len(s) : ~IsLower(SubSeq(s, i, i)) THEN "upper" ELSE "mixed"

VARIABLE s
Emit == PrintT("CASE " \o ToJson([s |-> s, kind |-> Kind(s), camel |-> Camel(s), snake |-> Snake(s), param |-> Param(s)]))
Init == s \in {"a", "b", "A", "B"}
Next == Len(s) < Depth /\ \E c \in Letters : s' = s \o c
Spec == Init /\ [][Next]_s

Laws == /\ Flat(Join(Words(s), "")) = Flat(s)
        /\ Flat(Camel(s)) = Flat(s) /\ Flat(Snake(s)) = Flat(s) /\ Flat(Param(s)) = Flat(s)
        /\ Bare(Camel(s)) = Camel(s) /\ IsUpper(SubSeq(Camel(s), 1, 1))
        /\ (\A i \in 1..Len(Snake(s)) : ~IsUpper(SubSeq(Snake(s), i, i)))
        /\ ~IsUpper(SubSeq(Param(s), 1, 1))
        \* names are stable: naming a Go name again changes nothing
        /\ Snake(Snake(s)) = Snake(s)
        /\ \A i \in 1..Len(Words(s)) : Len(Words(s)[i]) > 0
=============================================================================
