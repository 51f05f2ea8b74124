-------------------------------- MODULE LspTrace --------------------------------
(***************************************************************************)
(* Judges what the language server did.                                    *)
(*   [op |-> "session", enc, sent, replies, diags, fresh, alive]           *)
(*      sent    the messages of the client in order (see module Lsp)       *)
(*      replies [id, ans] in the order in which they arrived, ans = "error"*)
(*              for failures                                               *)
(*      diags   [uri, ans] in the order in which they arrived              *)
(*      fresh   [kind, text, pos, cfg, ans] what a server that did nothing *)
(*              else has to say about a document; text = <<>> for one that *)
(*              does not exist, otherwise <<text>>                         *)
(*      alive   TRUE if it could still be talked to at the end; when it was*)
(*              shut down, if it ended as it should                        *)
(*   [op |-> "view", text, enc, tree, floats, symbols, tokens, hovers]     *)
(*      symbols [depth, kind, name, range], range = <<start, end>>         *)
(*      tokens  <<delta line, delta start, length, type>>                  *)
(*      hovers  [at, range, text], range = <<>> if there is none           *)
(*   [op |-> "verdict", text, enc, valid, empty, labels, shown, diags,     *)
(*    offered]                                                             *)
(*      valid   what the compiler says about the text, labels the positions*)
(*              it reports; empty if it has no definitions; shown that     *)
(*              something was published, diags the ranges of the           *)
(*              diagnostics; offered TRUE for each of symbols, tokens and  *)
(*              hover that has content                                     *)
(*   [op |-> "hover", text, enc, tree, floats, cfg, big, hovers]           *)
(*      hovers [at, range, text, size]: size is what is said about sizes,  *)
(*             read as a tree, [label |-> "none"] if nothing; text is the  *)
(*             rest.  big: the sizes are too large for this specification  *)
(*   [op |-> "init", offered, announced]                                   *)
(***************************************************************************)
EXTENDS Lsp, Json, IOUtils

Y == INSTANCE Syntax
Sch == INSTANCE Schema
M == INSTANCE Meta WITH Types <- <<>>, DevTupleSize <- FALSE, DevSkip <- FALSE

Prop == IOEnv.PROP
Chunks == atoi(IOEnv.CHUNKS)
Events == ndJsonDeserialize(IOEnv.TRACE)
N0 == Len(Events)

\* answers of an undisturbed server
Fresh(e, kind, doc, pos, cfg) ==
    LET S == {i \in 1..Len(e.fresh) :
                LET f == e.fresh[i] IN
                f.kind = kind /\ f.pos = pos /\ f.cfg = cfg /\ f.text = (IF doc.k = "none" THEN <<>> ELSE <<doc.text>>)}
    IN  IF S = {} THEN Assert(FALSE, <<"not asked for", kind, doc, pos, cfg>>) ELSE e.fresh[CHOOSE i \in S : TRUE].ans

Dues(e) == After(e.sent, e.enc)

RightReply(e, w, r) ==
    CASE w.kind = "error" -> r.ans = "error"
      [] w.kind = "value" -> r.ans # "error"
      [] w.doc.k = "any" -> TRUE
      [] w.kind = "hover" -> \E c \in Settings(e.sent, IndexOf(e.sent, w.id)) : r.ans = Fresh(e, "hover", w.doc, w.pos, c)
      [] OTHER -> r.ans = Fresh(e, w.kind, w.doc, <<>>, "default")

\* each request is answered once, in order
OnceInOrder(e) == LET o == Dues(e).owed IN [i \in 1..Len(e.replies) |-> e.replies[i].id] = [i \in 1..Len(o) |-> o[i].id]
\* failures are told
ErrorsToo(e) ==
    LET o == Dues(e).owed IN
    \A i \in 1..Len(e.replies) : \A j \in 1..Len(o) :
        (o[j].id = e.replies[i].id /\ o[j].kind \in {"error", "value"}) => (e.replies[i].ans = "error") = (o[j].kind = "error")
\* every answer is that of a fresh server
Answers(e) ==
    LET o == Dues(e).owed IN
    \A i \in 1..Len(e.replies) : \A j \in 1..Len(o) : o[j].id = e.replies[i].id => RightReply(e, o[j], e.replies[i])

\* the diagnostics of a document are those of its texts, in order, and finally those of the last one
Uris(e) == {e.diags[i].uri : i \in 1..Len(e.diags)} \cup {Dues(e).shown[i].uri : i \in 1..Len(Dues(e).shown)}
RightDiag(e, s, d) == s.doc.k = "any" \/ d.ans = Fresh(e, "diag", s.doc, <<>>, "default")
RECURSIVE Follows(_, _, _, _, _)
Follows(e, ds, ss, i, j) ==
    IF i > Len(ds) THEN TRUE
    ELSE IF j > Len(ss) THEN FALSE
    ELSE IF RightDiag(e, ss[j], ds[i]) THEN Follows(e, ds, ss, i + 1, j + 1) ELSE Follows(e, ds, ss, i, j + 1)
Diagnoses(e) ==
    \A u \in Uris(e) :
        LET ds == SelectSeq(e.diags, LAMBDA d : d.uri = u)
            ss == SelectSeq(Dues(e).shown, LAMBDA s : s.uri = u)
                due == SelectSeq(ss, LAMBDA s : s.due)
                last == due[Len(due)]
            IN  /\ Follows(e, ds, ss, 1, 1)
                /\ (due # <<>> /\ last.doc.k = "text") =>
                      IF ss[Len(ss)].due THEN ds # <<>> /\ RightDiag(e, last, ds[Len(ds)])
                      ELSE \E i \in 1..Len(ds) : RightDiag(e, last, ds[i])

Session(e) ==
    CASE Prop = "L02" -> e.alive /\ OnceInOrder(e) /\ ErrorsToo(e)
      [] OTHER -> e.alive /\ OnceInOrder(e) /\ ErrorsToo(e) /\ Answers(e) /\ Diagnoses(e)

----------------------------------------------------------------------------
Span(t, s, enc) == <<Pos(t, s[2], enc), Pos(t, s[3], enc)>>

\* absolute positions of tokens
RECURSIVE Absolute(_, _, _)
Absolute(ts, line, col) ==
    IF ts = <<>> THEN <<>>
    ELSE LET x == Head(ts)
             l == line + x[1]
             c == (IF x[1] = 0 THEN col ELSE 0) + x[2]
         IN  << << <<l, c>>, <<l, c + x[3]>>, x[4] >> >> \o Absolute(Tail(ts), l, c)

Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])

\* a comment line may end with the carriage return that belongs to its line ending
Drops(t, s, enc) == IF s[1] = "comment" /\ Byte(t, s[3]) = 13 /\ s[3] > s[2] THEN {<<Pos(t, s[2], enc), Pos(t, s[3] - 1, enc)>>} ELSE {}
\* what tokens can say of elements: <<range, type, element>>
Sayings(t, els, enc) == UNION {{<<r, ty, s>> : r \in {Span(t, s, enc)} \cup Drops(t, s, enc), ty \in TokenTypes(s[4])} : s \in els}

Viewed(e) ==
    LET r == Y!Reading(e.tree, e.text, e.floats)
        els == Y!Elements(r)
        syms == Symbols(e.tree.defs, 0)
        spans == SymbolSpans(els)
        toks == Absolute(e.tokens, 0, 0)
    IN
    /\ Assert(r.p > 0, "the text was not laid out as specified")
    /\ Assert(Len(syms) = Len(spans), "symbols and ranges do not fit")
    \* symbols
    /\ Len(e.symbols) = Len(syms)
    /\ \A i \in 1..Len(syms) :
          /\ e.symbols[i].depth = syms[i].depth /\ e.symbols[i].kind = syms[i].kind /\ e.symbols[i].name = syms[i].name
          /\ e.symbols[i].range = Span(e.text, spans[i], e.enc)
    \* tokens: ordered, apart, each of them an element, no element missing
    /\ \A i \in 1..(Len(toks) - 1) : Before(toks[i][2], toks[i + 1][1])
    /\ LET told == {<<<<toks[i][1], toks[i][2]>>, toks[i][3]>> : i \in 1..Len(toks)}
           says == Sayings(e.text, ToSet(els), e.enc)
       IN  /\ told \subseteq {<<x[1], x[2]>> : x \in says}
           /\ {s \in ToSet(els) : s[4] \in Must} \subseteq {x[3] : x \in {y \in says : <<y[1], y[2]>> \in told}}
    \* hovers: exactly on the names of elements, and with their comments first
    /\ \A i \in 1..Len(e.hovers) :
          LET h == e.hovers[i]
              o == Off(e.text, h.at, e.enc)
              on == {j \in 1..Len(syms) : syms[j].hover /\ spans[j][2] <= o /\ o < spans[j][3]}
              lines == Flat([k \in 1..(IF on = {} THEN 0 ELSE Len(syms[CHOOSE j \in on : TRUE].comment)) |->
                              syms[CHOOSE j \in on : TRUE].comment[k] \o <<10>>])
          IN  IF on = {} THEN h.range = <<>>
              ELSE /\ h.range = Span(e.text, spans[CHOOSE j \in on : TRUE], e.enc)
                   /\ Len(h.text) >= Len(lines) /\ SubSeq(h.text, 1, Len(lines)) = lines

\* L06: everything a hover says.  Strings are spelled out
Heading == <<35, 35, 35, 32, 87, 105, 114, 101, 32, 115, 105, 122, 101, 10, 10>>             \* ### Wire size
NextId(n) == <<45, 32, 110, 101, 120, 116, 32, 73, 68, 58, 32, 96>> \o n \o <<96, 10>>      \* - next ID: `n`
Numbered(items) == [i \in 1..Len(items) |-> [id |-> [j \in 1..Len(items[i].id) |-> FromDecimal(items[i].id[j])]]]

RECURSIVE Num(_)
Num(bs) == IF bs = <<>> THEN 0 ELSE (10 * Num(SubSeq(bs, 1, Len(bs) - 1))) + (bs[Len(bs)] - 48)
Says(e, h, sym) ==
    LET lines == Flat([k \in 1..Len(sym.comment) |-> sym.comment[k] \o <<10>>])
        on == Asked(e.cfg)
    IN  CASE sym.about.k = "next" /\ on.next ->
                h.text = lines \o NextId(ToDecimal(Sch!Next1(Sch!Assign(Numbered(sym.about.items))))) /\ h.size = [label |-> "none"]
          [] sym.about.k = "size" /\ on.size ->
                h.text = lines \o Heading /\ h.size.label # "none" /\ M!SizeOf(h.size, sym.about.ty, Num, e.big)
          [] OTHER -> h.text = lines /\ h.size = [label |-> "none"]

Hovered(e) ==
    LET r == Y!Reading(e.tree, e.text, e.floats)
        syms == Symbols(e.tree.defs, 0)
        spans == SymbolSpans(Y!Elements(r))
    IN
    /\ Assert(r.p > 0, "the text was not laid out as specified")
    /\ Assert(Len(syms) = Len(spans), "symbols and ranges do not fit")
    /\ \A i \in 1..Len(e.hovers) :
          LET h == e.hovers[i]
              o == Off(e.text, h.at, e.enc)
              on == {j \in 1..Len(syms) : syms[j].hover /\ spans[j][2] <= o /\ o < spans[j][3]}
          IN  IF on = {} THEN h.range = <<>> ELSE h.range # <<>> /\ Says(e, h, syms[CHOOSE j \in on : TRUE])

\* L05
\* The outline and the tokens: what every element is, whatever their ranges are worth
Outlined(e) ==
    LET r == Y!Reading(e.tree, e.text, e.floats)
        els == ToSet(Y!Elements(r))
        syms == Symbols(e.tree.defs, 0)
        toks == Absolute(e.tokens, 0, 0)
        told == {<<<<toks[i][1], toks[i][2]>>, toks[i][3], ToSet(e.mods[i]), Len(e.mods[i])>> : i \in 1..Len(toks)}
        says == {<<x[1], x[2], Modifiers(x[3][4]), Cardinality(Modifiers(x[3][4])), x[3]>> : x \in Sayings(e.text, els, e.enc)}
    IN
    /\ Assert(r.p > 0, "the text was not laid out as specified")
    /\ [i \in 1..Len(e.symbols) |-> <<e.symbols[i].depth, e.symbols[i].kind, e.symbols[i].name>>]
       = [i \in 1..Len(syms) |-> <<syms[i].depth, syms[i].kind, syms[i].name>>]
    /\ told \subseteq {SubSeq(x, 1, 4) : x \in says}
    /\ {s \in els : s[4] \in Must} \subseteq {x[5] : x \in {y \in says : SubSeq(y, 1, 4) \in told}}

\* a text that parses and is refused is refused for one place, or for one
\* that clashes with an earlier one: it is the place, or the later one, that
\* the diagnostic is at, and it refers to no more than the earlier one
Located(e, d, rel) ==
    LET P(j) == <<Pos(e.text, e.labels[j][1], e.enc), Pos(e.text, e.labels[j][1] + e.labels[j][2], e.enc)>>
        J == 1..Len(e.labels)
        last == CHOOSE j \in J : \A k \in J : e.labels[k][1] <= e.labels[j][1]
    IN  /\ d = P(last)
        /\ \A i \in 1..Len(rel) : rel[i].here /\ \E j \in J \ {last} : rel[i].range = P(j)

Verdict(e) ==
    /\ e.shown
    /\ e.valid = (e.diags = <<>>)
    /\ \A i \in 1..Len(e.offered) : e.offered[i] => e.valid
    /\ (e.valid /\ ~e.empty) => \A i \in 1..Len(e.offered) : e.offered[i]
    /\ \A i \in 1..Len(e.diags) :
          \E j \in 1..Len(e.labels) : e.diags[i][1] = Pos(e.text, e.labels[j][1], e.enc)
                                      /\ (e.diags[i][2] = e.diags[i][1] \/ e.diags[i][2] = Pos(e.text, e.labels[j][1] + e.labels[j][2], e.enc))
    /\ e.exact => \A i \in 1..Len(e.diags) : Located(e, e.diags[i], e.related[i])

\* the server takes one of the encodings it is offered, or the default one
Announced(e) ==
    LET O == {e.offered[i] : i \in 1..Len(e.offered)} IN
    IF O \cap Encodings = {} THEN e.announced = "utf-16" ELSE e.announced \in (O \cap Encodings) \cup {"utf-16"}

Accept(e) ==
    CASE e.op = "session" -> Session(e)
      [] e.op = "view" -> Viewed(e)
      [] e.op = "outline" -> Outlined(e)
      [] e.op = "verdict" -> Verdict(e)
      [] e.op = "hover" -> Hovered(e)
      [] e.op = "init" -> Announced(e)

Tag(e) == IF "tag" \in DOMAIN e THEN e.tag ELSE "-"

VARIABLES c, l
vars == <<c, l>>
Lo(i) == ((i - 1) * N0) \div Chunks + 1
Hi(i) == (i * N0) \div Chunks
TraceInit == c \in 1..Chunks /\ l = Lo(c)
TraceNext ==
    /\ l <= Hi(c)
    /\ IF Accept(Events[l]) THEN TRUE ELSE PrintT("REJECT " \o ToString(l) \o " " \o Tag(Events[l]))
    /\ l' = l + 1
    /\ UNCHANGED c
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("distinct") = N0 + Chunks
=============================================================================
