------------------------------- MODULE MetaTrace -------------------------------
(***************************************************************************)
(* Judges the sizes shown for types: [ty, shown]                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

M == INSTANCE Meta WITH Types <- <<>>, DevTupleSize <- FALSE, DevSkip <- FALSE

Prop == IOEnv.PROP
Chunks == atoi(IOEnv.CHUNKS)
Events == ndJsonDeserialize(IOEnv.TRACE)
N0 == Len(Events)

\* listed deviation: the length of a tuple that is the value of a field is left out
Dev == IOEnv.DEV = "1"
RECURSIVE TupleField(_)
TupleField(t) == t.k = "tup" \/ (t.k = "opt" /\ TupleField(t.e))

Accept(e) == M!ShownFor(e.shown, e.ty, TRUE) \/ (Dev /\ TupleField(e.ty) /\ M!ShownFor(e.shown, e.ty, FALSE))

VARIABLES c, l
vars == <<c, l>>
Lo(i) == ((i - 1) * N0) \div Chunks + 1
Hi(i) == (i * N0) \div Chunks
TraceInit == c \in 1..Chunks /\ l = Lo(c)
TraceNext ==
    /\ l <= Hi(c)
    /\ IF Accept(Events[l]) THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Events[l].tag)
    /\ l' = l + 1
    /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("distinct") = N0 + Chunks
=============================================================================
