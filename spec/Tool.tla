---------------------------------- MODULE Tool ----------------------------------
(***************************************************************************)
(* The command line tool and the build step over a directory tree.         *)
(*                                                                         *)
(* A world is a tree (see Project) whose entries for files also have a     *)
(* field c, the number of their content in a pool of contents              *)
(*   [reads, parses, canon, defs]                                          *)
(* which says whether it is text at all, whether it is a schema, which     *)
(* content is its canonical text, and what it defines (see Schema).        *)
(*                                                                         *)
(* A selection is [k |-> "project", pats] for the files of the project at  *)
(* the root of the tree, or [k |-> "globs", pats] for patterns given on    *)
(* the command line, which know neither ignore rules nor hidden files.     *)
(***************************************************************************)
EXTENDS Project

Sch == INSTANCE Schema

Stem(p) == LET n == Name(p) IN SubSeq(n, 1, Len(n) - Len(Ext))

\* names are bytes here and strings in schemas
Letters == "abcdefghijklmnopqrstuvwxyz"
Capitals == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"
Chr(b) == IF b \in 97..122 THEN SubSeq(Letters, b - 96, b - 96)
          ELSE IF b \in 65..90 THEN SubSeq(Capitals, b - 64, b - 64)
          ELSE IF b \in 48..57 THEN SubSeq(Digits, b - 47, b - 47)
          ELSE IF b = 95 THEN "_" ELSE IF b = 46 THEN "." ELSE "-"
Str(bs) == FoldLeft(LAMBDA s, b : s \o Chr(b), "", bs)

Globbed(tree, pats) ==
    {p \in Files(Followed(tree)) : HasExt(p) /\ \E i \in 1..Len(pats) : Matches(pats[i], p)}

Chosen(tree, sel) == IF sel.k = "project" THEN Selected(tree, sel.pats) ELSE Globbed(tree, sel.pats)

\* what is at each path
HasContent(e) == e.kind \in {"file", "rules"}
Contents(tree) == {<<e.path, e.c>> : e \in {x \in ToSet(tree) : HasContent(x)}}
At(tree, p) == (CHOOSE x \in Contents(tree) : x[1] = p)[2]

----------------------------------------------------------------------------
\* Formatting

Canonical(pool, c) == IF pool[c].parses THEN pool[c].canon ELSE c
Formatted(pool, tree, chosen) == {<<x[1], IF x[1] \in chosen THEN Canonical(pool, x[2]) ELSE x[2]>> : x \in Contents(tree)}
Rewritten(pool, tree, chosen) == {x[1] : x \in {y \in Contents(tree) : y[1] \in chosen /\ Canonical(pool, y[2]) # y[2]}}

----------------------------------------------------------------------------
\* Checking: "ok", "bad", or "open" where it is not settled which schema a reference means

World(pool, tree, chosen) ==
    LET ps == SetToSeq(chosen) IN [i \in 1..Len(ps) |-> [name |-> Str(Stem(ps[i])), defs |-> pool[At(tree, ps[i])].defs]]
SameStem(chosen) == \E p \in chosen, q \in chosen : p # q /\ Stem(p) = Stem(q)

Checked(pool, tree, chosen) ==
    IF \E p \in chosen : LET c == pool[At(tree, p)] IN ~c.reads \/ ~c.parses \/ ~Sch!Valid(c.defs) THEN "bad"
    ELSE IF SameStem(chosen)
         THEN (IF \E p \in chosen : Sch!AllUses(pool[At(tree, p)].defs) # {} THEN "open"
               ELSE LET ws == World(pool, tree, chosen) IN
                    IF \A i \in 1..Len(ws) : Sch!Verdict(<<ws[i]>>) = "ok" THEN "open"
                    ELSE IF \E i \in 1..Len(ws) : Sch!Verdict(<<ws[i]>>) = "bad" THEN "bad" ELSE "open")
    ELSE Sch!Verdict(World(pool, tree, chosen))

----------------------------------------------------------------------------
\* Building: one source file for each schema, named after it.  Schemas that share a name can not be built.

Built(pool, tree, chosen) ==
    LET v == Checked(pool, tree, chosen) IN
    IF v = "bad" \/ SameStem(chosen) THEN "bad" ELSE v
Produced(chosen) == {Stem(p) : p \in chosen}

----------------------------------------------------------------------------
\* Packages of Go: a directory for the schema, named after the project, with one inside for each module, and so on.
\* Each has one file, named after the directory.

RECURSIVE Packages(_, _)
Packages(dir, defs) ==
    {dir} \cup UNION {IF defs[i].d = "mod" THEN Packages(dir \o <<defs[i].name>>, defs[i].defs) ELSE {} : i \in 1..Len(defs)}
GoFiles(package, defs) == {d \o <<d[Len(d)] \o ".go">> : d \in Packages(<<package>>, defs)}
=============================================================================
