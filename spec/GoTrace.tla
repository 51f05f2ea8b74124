------------------------------- MODULE GoTrace -------------------------------
(***************************************************************************)
(* Judges generated Go packages: [name, comment, defs, out, without].       *)
(* Every listed deviation is tolerated but the one an event is without.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, GoGen

Deviations == {"go-optional", "enum-encode-nil", "end-marker", "tuple-code", "external-code", "imports"}

Prop == IOEnv.PROP
Chunks == atoi(IOEnv.CHUNKS)
Events == ndJsonDeserialize(IOEnv.TRACE)
N0 == Len(Events)

Without(D) == INSTANCE GoGen WITH Dev <- D
Accept(e) == IF e.without = "" THEN Package(e.out, e.name, e.comment, e.defs)
             ELSE Without(Deviations \ {e.without})!Package(e.out, e.name, e.comment, e.defs)

VARIABLES c, l
vars == <<c, l>>
Lo(i) == ((i - 1) * N0) \div Chunks + 1
Hi(i) == (i * N0) \div Chunks
TraceInit == c \in 1..Chunks /\ l = Lo(c)
TraceNext ==
    /\ l <= Hi(c)
    /\ IF Accept(Events[l]) THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Events[l].tag)
    /\ l' = l + 1
    /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("distinct") = N0 + Chunks
=============================================================================
