-------------------------------- MODULE Project --------------------------------
(***************************************************************************)
(* Projects: directory trees, patterns and ignore files, and which schema  *)
(* files they select.                                                      *)
(*                                                                         *)
(* Names are sequences of bytes, a path is a sequence of names, and a tree *)
(* is a sequence of entries                                                *)
(*   [path, kind |-> "file"]                                               *)
(*   [path, kind |-> "dir"]                                                *)
(*   [path, kind |-> "link", to |-> path]   a symbolic link in the tree    *)
(*   [path, kind |-> "rules", rules |-> rules]  an ignore file             *)
(*                                                                         *)
(* A pattern is a sequence of                                              *)
(*   <<"lit", byte>>, <<"any">> (one byte), <<"star">> (any run of bytes), *)
(*   <<"sep">> (the slash), <<"set", bytes, negated>> ([ab] or [!ab])      *)
(*   <<"alt", patterns>> (the alternatives in braces)                      *)
(*   and the double star: <<"pre">> at the beginning, <<"mid">> between    *)
(*   two slashes, <<"suf">> at the end, <<"all">> on its own               *)
(*                                                                         *)
(* A rule of an ignore file is [neg, root, dir, pat]: whether it takes the *)
(* entries back, is anchored with a leading slash, and is only for         *)
(* directories (trailing slash).                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Slash == 47
Dot == 46
Ext == <<46, 109, 97, 98, 111>>                         \* .mabo
TomlName == <<77, 97, 98, 111, 46, 116, 111, 109, 108>>  \* Mabo.toml
GitIgnore == <<46, 103, 105, 116, 105, 103, 110, 111, 114, 101>>
Ignore == <<46, 105, 103, 110, 111, 114, 101>>
GitDir == <<46, 103, 105, 116>>

RECURSIVE Joined(_)
Joined(path) == IF Len(path) = 0 THEN <<>> ELSE IF Len(path) = 1 THEN path[1] ELSE path[1] \o <<Slash>> \o Joined(Tail(path))

----------------------------------------------------------------------------
\* Patterns

RECURSIVE PText(_), AltText(_)
PText(ts) ==
    IF ts = <<>> THEN <<>>
    ELSE LET t == Head(ts) IN
         (CASE t[1] = "lit" -> IF t[2] \in {42, 63, 91, 93, 123, 125, 92, 33, 44} THEN <<92, t[2]>> ELSE <<t[2]>>
            [] t[1] = "any" -> <<63>>
            [] t[1] = "star" -> <<42>>
            [] t[1] = "sep" -> <<47>>
            [] t[1] = "set" -> <<91>> \o (IF t[3] THEN <<33>> ELSE <<>>) \o t[2] \o <<93>>
            [] t[1] = "alt" -> <<123>> \o AltText(t[2]) \o <<125>>
            [] t[1] = "pre" -> <<42, 42, 47>>
            [] t[1] = "mid" -> <<47, 42, 42, 47>>
            [] t[1] = "suf" -> <<47, 42, 42>>
            [] t[1] = "all" -> <<42, 42>>) \o PText(Tail(ts))
AltText(as) == IF Len(as) = 1 THEN PText(as[1]) ELSE PText(as[1]) \o <<44>> \o AltText(Tail(as))

\* the patterns without alternatives it stands for
RECURSIVE Expand(_)
Expand(ts) ==
    IF ts = <<>> THEN {<<>>}
    ELSE LET r == Expand(Tail(ts)) IN
         IF Head(ts)[1] = "alt"
         THEN UNION {{a \o x : a \in Expand(Head(ts)[2][i]), x \in r} : i \in 1..Len(Head(ts)[2])}
         ELSE {<<Head(ts)>> \o x : x \in r}

From(s, i) == SubSeq(s, i, Len(s))

RECURSIVE Fits(_, _)
Fits(ts, s) ==
    IF ts = <<>> THEN s = <<>>
    ELSE LET t == Head(ts)  r == Tail(ts)  more == s # <<>> IN
         CASE t[1] = "lit" -> more /\ Head(s) = t[2] /\ Fits(r, Tail(s))
           [] t[1] = "sep" -> more /\ Head(s) = Slash /\ Fits(r, Tail(s))
           [] t[1] = "any" -> more /\ Head(s) # Slash /\ Fits(r, Tail(s))
           [] t[1] = "set" -> more /\ Head(s) # Slash /\ ((Head(s) \in ToSet(t[2])) # t[3]) /\ Fits(r, Tail(s))
           [] t[1] = "star" -> Fits(r, s) \/ (more /\ Head(s) # Slash /\ Fits(ts, Tail(s)))
           [] t[1] = "pre" -> Fits(r, s) \/ \E i \in 1..Len(s) : s[i] = Slash /\ Fits(r, From(s, i + 1))
           [] t[1] = "mid" -> more /\ Head(s) = Slash
                              /\ (Fits(r, Tail(s)) \/ \E i \in 2..Len(s) : s[i] = Slash /\ Fits(r, From(s, i + 1)))
           [] t[1] = "suf" -> Len(s) > 1 /\ Head(s) = Slash
           [] t[1] = "all" -> TRUE

Matches(pat, path) == LET s == Joined(path) IN \E ts \in Expand(pat) : Fits(ts, s)

----------------------------------------------------------------------------
\* Trees

Under(d, p) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
Parent(p) == SubSeq(p, 1, Len(p) - 1)
Name(p) == p[Len(p)]

Bare(e, path) == CASE e.kind = "rules" -> [path |-> path, kind |-> "rules", rules |-> e.rules]
                   [] OTHER -> [path |-> path, kind |-> e.kind]

\* with links followed: what is behind them appears at their place, which can be further links.  Links lead to a place by
\* the path it really has, and not around in circles.
RECURSIVE Appears(_, _, _, _)
Appears(tree, e, at, n) ==
    IF e.kind # "link" THEN {Bare(e, at)}
    ELSE IF n = 0 THEN {}
    ELSE UNION {IF f.path = e.to THEN Appears(tree, f, at, n - 1)
                ELSE IF Under(e.to, f.path) THEN Appears(tree, f, at \o From(f.path, Len(e.to) + 1), n - 1)
                ELSE {} : f \in ToSet(tree)}
Followed(tree) ==
    LET n == Cardinality({e \in ToSet(tree) : e.kind = "link"}) IN
    UNION {Appears(tree, e, e.path, n) : e \in ToSet(tree)}
Unfollowed(tree) == {IF e.kind = "link" THEN [path |-> e.path, kind |-> "link"] ELSE Bare(e, e.path) : e \in ToSet(tree)}

IsDir(es, p) == \E e \in es : e.path = p /\ e.kind = "dir"

----------------------------------------------------------------------------
\* Ignore files

RuleText(r) ==
    (IF r.neg THEN <<33>> ELSE <<>>) \o (IF r.root THEN <<47>> ELSE <<>>) \o PText(r.pat) \o (IF r.dir THEN <<47>> ELSE <<>>)

Anchored(r) == r.root \/ \E i \in 1..Len(r.pat) : r.pat[i][1] \in {"sep", "mid", "suf", "pre", "all"}

RuleHits(r, rel, isdir) ==
    /\ r.dir => isdir
    /\ IF Anchored(r) THEN Matches(r.pat, rel) ELSE Matches(r.pat, <<Name(rel)>>)

\* what the rules of a file say: "none", "out" or "in"; the last one that applies decides
Says(rules, rel, isdir) ==
    FoldLeft(LAMBDA v, r : IF RuleHits(r, rel, isdir) THEN (IF r.neg THEN "in" ELSE "out") ELSE v, "none", rules)

RECURSIVE SaysUp(_, _, _, _, _)
\* the nearest ignore file of a kind with an opinion, from a directory upwards
SaysUp(es, name, d, p, isdir) ==
    LET fs == {e \in es : e.kind = "rules" /\ e.path = d \o <<name>>}
        v == IF fs = {} THEN "none" ELSE Says((CHOOSE e \in fs : TRUE).rules, From(p, Len(d) + 1), isdir)
        repo == IsDir(es, d \o <<GitDir>>)
    IN  IF v # "none" THEN v
        ELSE IF d = <<>> \/ (name = GitIgnore /\ repo) THEN "none"
        ELSE SaysUp(es, name, Parent(d), p, isdir)

\* .gitignore files count inside of a repository only
InRepo(es, p) == \E n \in 0..(Len(p) - 1) : IsDir(es, SubSeq(p, 1, n) \o <<GitDir>>)

Opinion(es, p) ==
    LET a == SaysUp(es, Ignore, Parent(p), p, IsDir(es, p))
        b == IF InRepo(es, p) THEN SaysUp(es, GitIgnore, Parent(p), p, IsDir(es, p)) ELSE "none"
    IN  IF a # "none" THEN a ELSE b

\* hidden entries are left out unless a rule says otherwise
LeftOut(es, p) ==
    LET o == Opinion(es, p) IN o = "out" \/ (o = "none" /\ Head(Name(p)) = Dot)

Visible(es, p) == \A n \in 1..Len(p) : ~LeftOut(es, SubSeq(p, 1, n))

----------------------------------------------------------------------------
\* Selection

HasExt(p) == LET n == Name(p) IN Len(n) > Len(Ext) /\ From(n, Len(n) - Len(Ext) + 1) = Ext

Files(es) == {e.path : e \in {x \in es : x.kind # "dir" /\ x.kind # "link"}}

\* the schemas of a project at the root of the tree
Selected(tree, pats) ==
    LET es == Followed(tree) IN
    {p \in Files(es) : HasExt(p) /\ Visible(es, p) /\ \E i \in 1..Len(pats) : Matches(pats[i], p)}

\* the same for a directory in it; ignore rules in the directories above apply as well
SelectedIn(tree, d, pats) ==
    LET es == Followed(tree) IN
    {From(p, Len(d) + 1) : p \in {q \in Files(es) :
        Under(d, q) /\ HasExt(q) /\ (\A n \in (Len(d) + 1)..Len(q) : ~LeftOut(es, SubSeq(q, 1, n)))
        /\ \E i \in 1..Len(pats) : Matches(pats[i], From(q, Len(d) + 1))}}

\* the directories with a project file
Discovered(tree) ==
    LET es == Unfollowed(tree) IN
    {Parent(p) : p \in {q \in Files(es) : Name(q) = TomlName /\ Visible(es, q)}}
=============================================================================
