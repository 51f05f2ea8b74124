---------------------------------- MODULE Lsp ----------------------------------
(***************************************************************************)
(* The language server, seen from its client.                              *)
(*                                                                         *)
(* Documents are sequences of bytes (UTF-8).  A position is <<line, unit>> *)
(* as in the protocol, its units being those of the negotiated encoding.   *)
(*                                                                         *)
(* A client message is one of                                              *)
(*   [m |-> "open", uri, text]                                             *)
(*   [m |-> "change", uri, changes]  each <<text>> or <<start, end, text>> *)
(*   [m |-> "close", uri], [m |-> "delete", uris]                          *)
(*   [m |-> "symbols" or "tokens", id, uri], [m |-> "hover", id, uri, pos] *)
(*   [m |-> "bad", id]     a request the server cannot understand          *)
(*   [m |-> "noise"]       anything else that is no request                *)
(*   [m |-> "config"]      the client's settings changed                   *)
(*   [m |-> "reply", cfg]  the answer to the server's question for them,   *)
(*                         cfg = "none" if it is of no use                 *)
(*   [m |-> "shutdown", id]  the end of the work: all that is left to do is  *)
(*                         to refuse requests, and to wait for the exit    *)
(*   [m |-> "files", files]  no message, but what the server found in the   *)
(*                         client's workspace when it started: [uri, text],*)
(*                         text = <<>> for files it may have read or not   *)
(*   [m |-> "settled", cfg]  no message, but the client knows by now that  *)
(*                         the server has understood its reply             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Encodings == {"utf-8", "utf-16", "utf-32"}

IsStart(b) == b < 128 \/ b >= 192

\* code units of the character that begins with a byte
Units(b, enc) ==
    CASE enc = "utf-32" -> 1
      [] enc = "utf-16" -> IF b >= 240 THEN 2 ELSE 1
      [] OTHER -> IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4

Byte(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE -1

Boundaries(t) == {i \in 0..Len(t) : i = Len(t) \/ IsStart(t[i + 1])}

\* the byte that completes a line ending: \n, \r\n or \r
Ends(t, i) == t[i] = 10 \/ (t[i] = 13 /\ Byte(t, i + 1) # 10)

\* the offset behind the last line ending in front of an offset
RECURSIVE LineStart(_, _)
LineStart(t, o) == IF o = 0 \/ Ends(t, o) THEN o ELSE LineStart(t, o - 1)

LineNo(t, o) == Cardinality({i \in 1..o : Ends(t, i)})

Width(bs, enc) == FoldLeft(LAMBDA n, b : IF IsStart(b) THEN n + Units(b, enc) ELSE n, 0, bs)

\* the position of an offset
Pos(t, o, enc) == <<LineNo(t, o), Width(SubSeq(t, LineStart(t, o) + 1, o), enc)>>

RECURSIVE StartOf(_, _, _)
StartOf(t, o, n) ==
    IF n = 0 THEN o ELSE IF o >= Len(t) THEN -1 ELSE StartOf(t, o + 1, IF Ends(t, o + 1) THEN n - 1 ELSE n)

\* where the line that begins at an offset ends, without its line ending
RECURSIVE ContentEnd(_, _)
ContentEnd(t, o) == IF o = Len(t) \/ t[o + 1] \in {10, 13} THEN o ELSE ContentEnd(t, o + 1)

RECURSIVE Walk(_, _, _, _, _)
Walk(t, o, e, n, enc) ==
    IF o = e \/ n = 0 THEN o
    ELSE IF ~IsStart(t[o + 1]) THEN Walk(t, o + 1, e, n, enc)
    ELSE LET w == Units(t[o + 1], enc)
             l == Units(t[o + 1], "utf-8")
         IN  IF w > n THEN -1 ELSE Walk(t, o + l, e, n - w, enc)

\* The offset of a position: beyond the end of a line it is the end of the line.
\* -1 if it is inside of a character or the line does not exist
Off(t, pos, enc) ==
    LET s == StartOf(t, 0, pos[1]) IN
    IF s = -1 THEN -1 ELSE Walk(t, s, ContentEnd(t, s), pos[2], enc)

\* A change applied to a text; <<>> if the protocol does not say what it does
ApplyOne(t, c, enc) ==
    IF Len(c) = 1 THEN <<c[1]>>
    ELSE LET s == Off(t, c[1], enc)  e == Off(t, c[2], enc) IN
         IF s = -1 \/ e = -1 \/ s > e THEN <<>>
         ELSE << SubSeq(t, 1, s) \o c[3] \o SubSeq(t, e + 1, Len(t)) >>

\* Texts are <<text>>, or <<>> if unknown
Apply(t, cs, enc) ==
    FoldLeft(LAMBDA x, c : IF Len(c) = 1 THEN <<c[1]>> ELSE IF x = <<>> THEN <<>> ELSE ApplyOne(x[1], c, enc), t, cs)

----------------------------------------------------------------------------
(***************************************************************************)
(* What the server owes its client.  A document is                         *)
(*   "none"  never opened, or deleted                                      *)
(*   "text"  with the text, "any" if it is unknown (closed, or changed in  *)
(*           a way that has no meaning)                                    *)
(***************************************************************************)
None == [k |-> "none", text |-> <<>>]
Unknown  == [k |-> "any", text |-> <<>>]
Doc(t) == [k |-> "text", text |-> t]

State0 == [docs |-> <<>>, owed |-> <<>>, shown |-> <<>>, down |-> FALSE]

Has(f, x) == \E i \in 1..Len(f) : f[i][1] = x
Get(f, x, d) == IF Has(f, x) THEN (f[CHOOSE i \in 1..Len(f) : f[i][1] = x])[2] ELSE d
Put(f, x, v) == IF Has(f, x) THEN [i \in 1..Len(f) |-> IF f[i][1] = x THEN <<x, v>> ELSE f[i]] ELSE Append(f, <<x, v>>)

DocOf(st, uri) == Get(st.docs, uri, None)

\* replies are owed in the order of the requests; documents are diagnosed after each opening and change
Owe(st, r) == [st EXCEPT !.owed = Append(@, r)]
Show(st, uri, d) == [st EXCEPT !.shown = Append(@, [uri |-> uri, doc |-> d, due |-> TRUE])]
\* when there is no document anymore, its diagnostics may be taken back
MayClear(st, uri) == [st EXCEPT !.shown = Append(@, [uri |-> uri, doc |-> Unknown, due |-> FALSE])]

Process(st, msg, enc) ==
    CASE st.down -> IF "id" \in DOMAIN msg THEN Owe(st, [id |-> msg.id, kind |-> "error", doc |-> Unknown, pos |-> <<>>]) ELSE st
      [] msg.m = "shutdown" -> [Owe(st, [id |-> msg.id, kind |-> "value", doc |-> Unknown, pos |-> <<>>]) EXCEPT !.down = TRUE]
      [] msg.m = "files" -> [st EXCEPT !.docs = FoldLeft(LAMBDA f, x : Put(f, x.uri, IF x.text = <<>> THEN Unknown ELSE Doc(x.text[1])), st.docs, msg.files)]
      [] msg.m = "open" ->
            Show([st EXCEPT !.docs = Put(@, msg.uri, Doc(msg.text))], msg.uri, Doc(msg.text))
      [] msg.m = "change" ->
            LET d == DocOf(st, msg.uri)
                t == Apply(IF d.k = "text" THEN <<d.text>> ELSE <<>>, msg.changes, enc)
                n == IF t = <<>> THEN Unknown ELSE Doc(t[1])
            IN  Show([st EXCEPT !.docs = Put(@, msg.uri, n)], msg.uri, IF d.k = "text" THEN n ELSE Unknown)
      [] msg.m = "close" ->
            MayClear([st EXCEPT !.docs = Put(@, msg.uri, IF DocOf(st, msg.uri) = None THEN None ELSE Unknown)], msg.uri)
      [] msg.m = "delete" ->
            FoldLeft(LAMBDA x, u : MayClear([x EXCEPT !.docs = Put(@, u, None)], u), st, msg.uris)
      [] msg.m \in {"symbols", "tokens", "hover"} ->
            Owe(st, [id |-> msg.id, kind |-> msg.m, doc |-> DocOf(st, msg.uri), pos |-> msg.pos])
      [] msg.m = "bad" -> Owe(st, [id |-> msg.id, kind |-> "error", doc |-> Unknown, pos |-> <<>>])
      [] OTHER -> st

After(msgs, enc) == FoldLeft(LAMBDA st, msg : Process(st, msg, enc), State0, msgs)

\* The settings a request may have been answered with
LastSettled(msgs, i) == LET S == {j \in 1..(i - 1) : msgs[j].m = "settled"} IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : k <= j
NextSettled(msgs, i) ==
    LET S == {j \in (i + 1)..Len(msgs) : msgs[j].m = "settled"} IN IF S = {} THEN Len(msgs) + 1 ELSE CHOOSE j \in S : \A k \in S : k >= j
Settings(msgs, i) ==
    LET a == LastSettled(msgs, i)  b == NextSettled(msgs, i) IN
    {IF a = 0 THEN "default" ELSE msgs[a].cfg}
    \cup {msgs[j].cfg : j \in {k \in (a + 1)..(b - 1) : msgs[k].m = "reply" /\ msgs[k].cfg # "none"}}
IndexOf(msgs, id) == CHOOSE i \in 1..Len(msgs) : "id" \in DOMAIN msgs[i] /\ msgs[i].id = id

----------------------------------------------------------------------------
(***************************************************************************)
(* What a valid document shows, from its schema (a tree of module Syntax)  *)
(* and the ranges of the elements in the text.                             *)
(***************************************************************************)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10)>> \o <<48 + (n % 10)>>

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE PathText(_)
PathText(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<58, 58>> \o PathText(Tail(ss))

FieldSyms(f, d) ==
    [i \in 1..Len(f.fs) |->
        [depth |-> d, kind |-> "field", name |-> IF f.k = "named" THEN f.fs[i].name ELSE Digits(i - 1),
         comment |-> f.fs[i].comment, hover |-> f.k = "named", about |-> [k |-> "size", ty |-> f.fs[i].ty]]]

NoMore == [k |-> "none"]
\* units have no numbers
Numbers(f) == IF f.k = "unit" THEN NoMore ELSE [k |-> "next", items |-> f.fs]

\* the symbols in the order of the text
RECURSIVE Symbols(_, _)
Symbols(defs, d) ==
    Flat([i \in 1..Len(defs) |->
        LET x == defs[i] IN
        CASE x.d = "mod" -> <<[depth |-> d, kind |-> "mod", name |-> x.name, comment |-> x.comment, hover |-> TRUE, about |-> NoMore]>> \o Symbols(x.defs, d + 1)
          [] x.d = "struct" -> <<[depth |-> d, kind |-> "struct", name |-> x.name, comment |-> x.comment, hover |-> TRUE, about |-> Numbers(x.fields)]>> \o FieldSyms(x.fields, d + 1)
          [] x.d = "enum" ->
                <<[depth |-> d, kind |-> "enum", name |-> x.name, comment |-> x.comment, hover |-> TRUE, about |-> [k |-> "next", items |-> x.variants]]>>
                \o Flat([j \in 1..Len(x.variants) |->
                    LET v == x.variants[j] IN
                    <<[depth |-> d + 1, kind |-> "variant", name |-> v.name, comment |-> v.comment, hover |-> TRUE, about |-> Numbers(v.fields)]>> \o FieldSyms(v.fields, d + 2)])
          [] x.d = "use" ->
                <<[depth |-> d, kind |-> "use", name |-> PathText(x.segs \o x.elem), comment |-> <<>>, hover |-> FALSE, about |-> NoMore]>>
          [] OTHER -> <<[depth |-> d, kind |-> x.d, name |-> x.name, comment |-> x.comment, hover |-> TRUE, about |-> NoMore]>>])

\* those ranges of a reading that symbols have, in the order of the text
SymbolRoles == {"mod", "struct", "enum", "variant", "alias", "const", "field", "unnamed", "use"}
SymbolSpans(spans) == SelectSeq(spans, LAMBDA s : s[4] \in SymbolRoles)

\* Settings of hovers
Asked(cfg) == CASE cfg = "default" -> [next |-> TRUE, size |-> TRUE]
               [] cfg = "quiet" -> [next |-> FALSE, size |-> FALSE]
               [] cfg = "sizes" -> [next |-> FALSE, size |-> TRUE]
               [] cfg = "ids" -> [next |-> TRUE, size |-> FALSE]

\* Decimal digits to digits of base 128, lowest first, and back
RECURSIVE AddTo(_, _)
AddTo(ds, n) == IF ds = <<>> THEN (IF n = 0 THEN <<>> ELSE <<n % 128>> \o AddTo(<<>>, n \div 128))
                ELSE << (Head(ds) + n) % 128 >> \o AddTo(Tail(ds), (Head(ds) + n) \div 128)
RECURSIVE Times(_, _, _)
Times(ds, m, c) == IF ds = <<>> THEN AddTo(<<>>, c)
                   ELSE << ((Head(ds) * m) + c) % 128 >> \o Times(Tail(ds), m, ((Head(ds) * m) + c) \div 128)
FromDecimal(bs) == FoldLeft(LAMBDA ds, b : Times(ds, 10, b - 48), <<>>, bs)
\* <<quotient, remainder>> of a division by ten
RECURSIVE Tenth(_)
Tenth(ds) == IF ds = <<>> THEN <<<<>>, 0>>
             ELSE LET h == Tenth(Tail(ds))
                      n == (h[2] * 128) + Head(ds)
                  IN  << IF h[1] = <<>> /\ n < 10 THEN <<>> ELSE <<n \div 10>> \o h[1], n % 10>>
RECURSIVE ToDecimal(_)
ToDecimal(ds) == IF ds = <<>> THEN <<>> ELSE LET t == Tenth(ds) IN ToDecimal(t[1]) \o <<48 + t[2]>>

\* the names of the kinds of tokens an element can be announced as; those elements in Must have to be
TokenTypes(role) ==
    CASE role = "comment" -> {"comment"} [] role = "keyword" -> {"keyword"}
      [] role = "mod" -> {"namespace"} [] role = "struct" -> {"struct"} [] role = "enum" -> {"enum"}
      [] role = "variant" -> {"enumMember"} [] role = "field" -> {"property"} [] role = "alias" -> {"typeAlias"}
      [] role = "const" -> {"variable"} [] role = "generic" -> {"typeParameter"}
      [] role = "segment" -> {"namespace"} [] role = "ref" -> {"type"}
      [] role = "builtin" -> {"builtinType"} [] role = "id" -> {"identifier"}
      [] role = "bool" -> {"boolean"} [] role = "number" -> {"number"}
      [] role = "," -> {"comma"} [] role = ":" -> {"colon"} [] role = ";" -> {"semicolon"}
      [] role = "::" -> {"doubleColon"} [] role = "=" -> {"equal"}
      [] role \in {"{", "}"} -> {"brace"} [] role \in {"[", "]"} -> {"bracket"}
      [] role \in {"(", ")"} -> {"parenthesis"} [] role \in {"<", ">"} -> {"angle"}
      [] OTHER -> {}
\* what more is said of an element: names are marked where they are declared
Modifiers(role) ==
    CASE role = "comment" -> {"documentation"}
      [] role = "const" -> {"declaration", "static", "constant"}
      [] role \in {"mod", "struct", "enum", "variant", "field", "alias", "generic"} -> {"declaration"}
      [] OTHER -> {}
Must == {"keyword", "mod", "struct", "enum", "variant", "field", "alias", "const", "generic", "segment", "ref",
         "builtin", "id"}
=============================================================================
