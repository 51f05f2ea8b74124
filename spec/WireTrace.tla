------------------------------ MODULE WireTrace ------------------------------
(***************************************************************************)
(* Judges recorded behaviour of generated code and of the runtime against  *)
(* Wire.  The recording is walked in independent chunks; every event must  *)
(* be accepted under the property selected by PROP.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)
TheTypes == JsonDeserialize(IOEnv.TYPES)
Prop   == IOEnv.PROP
Chunks == atoi(IOEnv.CHUNKS)
Dev    == IOEnv.DEV = "1"
SkipDev == IOEnv.DEVSKIP = "1"
N      == Len(Events)

W  == INSTANCE Wire WITH Types <- TheTypes, DevTupleSize <- Dev, DevSkip <- SkipDev
\* the format as it is meant to be
W0 == INSTANCE Wire WITH Types <- TheTypes, DevTupleSize <- FALSE, DevSkip <- SkipDev

Ref(i) == [k |-> "ref", i |-> i]

\* The known deviation shows in this value
Affected(t, v) == Dev /\ (W!Size(t, v) # W0!Size(t, v) \/ W!Enc(t, v) # W0!Enc(t, v))

Tolerable(o) == o.st \in {"ok", "err"}

\* One decode attempt: any input, whole outcome as the format prescribes
Matches(t, b, o) == W0!Allowed(t, b, W0!Decode(t, b), o)

RoundTrip(e) ==
    LET t == Ref(e.t)
    IN  IF "out" \notin DOMAIN e THEN FALSE
        ELSE IF Affected(t, e.v) THEN Matches(t, e.bytes \o e.tail, e.out)
        ELSE e.out.st = "ok" /\ e.out.rest = Len(e.tail) /\ W0!SameValue(t, e.v, e.out.v)

SizeExact(e) ==
    LET t == Ref(e.t)
    IN  IF "bytes" \notin DOMAIN e THEN FALSE
        ELSE IF Affected(t, e.v) THEN e.size = W!Size(t, e.v)
        ELSE IF "huge" \in DOMAIN e THEN e.size = Len(e.bytes) /\ e.size = W0!Size(t, e.v)
        ELSE /\ e.size = Len(e.bytes)
             \* every nested prefix covers what it announces: the prescribed reader finds the value again
             /\ LET r == W0!Decode(t, e.bytes) IN
                r.st = "ok" => (r.p = Len(e.bytes) + 1)
             /\ W0!Decode(t, e.bytes).st = "ok"

Layout(e) ==
    LET t == Ref(e.t) IN "bytes" \in DOMAIN e /\ e.bytes = W!Enc(t, e.v)

Evolved(e) ==
    LET x == W0!Project(Ref(e.w), Ref(e.r), e.v)
        o == e.out
    IN  IF Affected(Ref(e.w), e.v) \/ x.st = "open" THEN Tolerable(o)
        ELSE IF x.st = "err" THEN o.st = "err" /\ \E y \in x.es : W0!SameErr(y, o.e)
        ELSE o.st = "ok" /\ o.rest = 0 /\ W0!SameValue(Ref(e.r), x.v, o.v)

\* A message put together by the specification, fields in any order
Reordered(e) == Matches(Ref(e.t), e.in, e.out)

Safe(e) ==
    /\ Tolerable(e.out)
    /\ (e.cut /\ W0!EndsWithMarker(Ref(e.t)) => e.out.st = "err")

\* Errors: where the format demands one it is of the demanded kind; a value only where
\* the format yields (the same) one
Rejects(e) == Matches(Ref(e.t), e.in, e.out)

\* integers of the runtime, raw and buffered
IntOk(e) ==
    IF e.op = "int" THEN
        LET m == W0!IntDigits(e.k, e.v) IN
        /\ e.bytes = W0!Varint(m) /\ e.wbytes = e.bytes
        /\ e.size = Len(e.bytes) /\ e.wsize = Len(e.bytes)
        /\ Len(e.bytes) <= W0!MaxBytes(e.k)
    ELSE
        LET r == W0!DecVarint(e.k, e.in, 1, Len(e.in) + 1)
            good(o) == CASE r.st = "any" -> TRUE
                         [] r.st = "err" -> o.st = "err"
                         [] r.st = "ok"  -> o.st = "ok" /\ o.n = r.p - 1 /\ o.v = W0!IntValue(e.k, r.v)
        IN  good(e.raw) /\ good(e.buf)

\* A stream of messages: every reader, however its buffer is cut, gets the prefix values
Prefixes(e, i) == [j \in 1..Len(e.msgs) |-> e.msgs[j].bytes]
StreamOk(e) ==
    LET n == Len(e.msgs)
        len[i \in 0..n] == IF i = 0 THEN 0 ELSE len[i - 1] + Len(e.msgs[i].bytes)
        total == len[n]
        aff == \E i \in 1..n : Affected(Ref(e.msgs[i].t), e.msgs[i].v)
    IN  \A c \in 1..Len(e.outs) :
            IF aff
            THEN \A i \in 1..n :
                    LET a == e.outs[c][i]
                        b == e.outs[1][i]
                    IN  /\ Tolerable(a) /\ a.st = b.st
                        /\ (a.st = "ok" => a.rest = b.rest /\ W0!SameValue(Ref(e.msgs[i].t), a.v, b.v))
            ELSE \A i \in 1..n :
                    /\ e.outs[c][i].st = "ok"
                    /\ e.outs[c][i].rest = total - len[i]
                    /\ W0!SameValue(Ref(e.msgs[i].t), e.msgs[i].v, e.outs[c][i].v)

\* The same bytes in pieces
PiecesOk(e) ==
    \A c \in 1..Len(e.outs) :
        LET o == e.outs[c] IN
        /\ o.st = e.whole.st
        /\ IF o.st = "ok" THEN o.rest = e.whole.rest /\ W0!SameValue(Ref(e.t), o.v, e.whole.v)
           ELSE o.st = "err" /\ (o.e = e.whole.e \/ e.loose)

Accept(e) ==
    CASE Prop = "W01" -> RoundTrip(e)
      [] Prop = "W02" -> SizeExact(e)
      [] Prop = "W03" -> Layout(e)
      [] Prop = "W04" -> IF e.op = "ev" THEN Evolved(e) ELSE Reordered(e)
      [] Prop = "W05" -> Safe(e)
      [] Prop = "W06" -> Rejects(e)
      [] Prop = "W07" -> IntOk(e)
      [] Prop = "W08" -> IF e.op = "stream" THEN StreamOk(e) ELSE PiecesOk(e)

Tag(e) == IF e.op = "rt" THEN (IF Affected(Ref(e.t), e.v) THEN "affected" ELSE "plain") ELSE e.op

VARIABLES c, l
vars == <<c, l>>

Lo(i) == ((i - 1) * N) \div Chunks + 1
Hi(i) == (i * N) \div Chunks

TraceInit == c \in 1..Chunks /\ l = Lo(c)
TraceNext ==
    /\ l <= Hi(c)
    /\ IF Accept(Events[l]) THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Tag(Events[l]))
    /\ l' = l + 1
    /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars

Consumed == TLCGet("distinct") = N + Chunks
=============================================================================
