------------------------------ MODULE DocTrace ------------------------------
(***************************************************************************)
(* Judges documentation: "doc" [name, comment, defs, pages] and what the   *)
(* tool writes for a project: "tree" [schemas of [name, defs], files] with *)
(* the files relative to the directory for the output.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, DocGen

Prop == IOEnv.PROP
Chunks == atoi(IOEnv.CHUNKS)
Events == ndJsonDeserialize(IOEnv.TRACE)
N0 == Len(Events)

AllPaths(ss) == Cat([i \in 1..Len(ss) |-> LET p == Paths(ss[i].name, ss[i].defs) IN [j \in 1..Len(p) |-> <<ss[i].name>> \o p[j]]])
Accept(e) ==
    CASE e.op = "doc" -> Documents(e.pages, e.name, e.comment, e.defs)
      [] e.op = "tree" -> LET want == AllPaths(e.schemas)
                              clash == \E i, j \in 1..Len(e.schemas) : i # j /\ e.schemas[i].name = e.schemas[j].name
                          IN  IF clash THEN ~e.ok      \* not all of it can be written
                              ELSE /\ e.ok
                                   /\ Len(e.files) = Len(want) /\ SeqSet(e.files) = SeqSet(want)
                                   /\ e.same           \* with what is rendered for each

VARIABLES c, l
vars == <<c, l>>
Lo(i) == ((i - 1) * N0) \div Chunks + 1
Hi(i) == (i * N0) \div Chunks
TraceInit == c \in 1..Chunks /\ l = Lo(c)
TraceNext ==
    /\ l <= Hi(c)
    /\ IF Accept(Events[l]) THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Events[l].tag)
    /\ l' = l + 1
    /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("distinct") = N0 + Chunks
=============================================================================
