--------------------------------- MODULE MCTool ---------------------------------
(***************************************************************************)
(* Every small world of schema files in all states they can be in, every   *)
(* command on it, and every command after that.  Checks the laws of the    *)
(* commands and prints each step.                                          *)
(***************************************************************************)
EXTENDS Tool, Json, IOUtils

Deep == IOEnv.DEEP = "1"

L(bs) == [i \in 1..Len(bs) |-> <<"lit", bs[i]>>]
Star == <<<<"star">>>>  Sep == <<<<"sep">>>>  Pre == <<<<"pre">>>>
D == <<100>>
A == <<<<97>> \o Ext>>  B == <<D, <<98>> \o Ext>>  C == <<D, D, <<99>> \o Ext>>  H == <<<<46, 104>> \o Ext>>  T == <<<<97, 46, 116, 120, 116>>>>
AA == <<D, <<97>> \o Ext>>

Fld(t) == [name |-> "", ty |-> t, id |-> <<>>]
Struct(n, ts) == [d |-> "struct", name |-> n, gen |-> <<>>,
                  fields |-> IF ts = <<>> THEN [k |-> "unit", fs |-> <<>>] ELSE [k |-> "unnamed", fs |-> [i \in 1..Len(ts) |-> Fld(ts[i])]]]
Ref(n) == [k |-> "ext", path |-> <<>>, name |-> n, ts |-> <<>>]
Mod(n, ds) == [d |-> "mod", name |-> n, defs |-> ds]
Use(s, n) == [d |-> "use", segs |-> <<s>>, elem |-> <<n>>]

\* contents: canonical ones are odd, the same in another layout follows
Text(i, defs) == << [reads |-> TRUE, parses |-> TRUE, canon |-> i, defs |-> defs], [reads |-> TRUE, parses |-> TRUE, canon |-> i, defs |-> defs] >>
NoText(i, reads) == << [reads |-> reads, parses |-> FALSE, canon |-> i, defs |-> <<>>], [reads |-> reads, parses |-> FALSE, canon |-> i + 1, defs |-> <<>>] >>
Pool == Text(1, <<Struct("A", <<>>)>>)                                            \* fine on its own
        \o Text(3, <<Use("b", "B"), Struct("A", <<Ref("B")>>)>>)                  \* needs B of b
        \o Text(5, <<Struct("A", <<>>), Struct("A", <<>>)>>)                      \* invalid
        \o Text(7, <<Struct("B", <<>>), Mod("m", <<Mod("n", <<>>), Struct("C", <<>>)>>)>>)
        \o Text(9, <<Struct("A", <<Ref("X")>>)>>)                                 \* a reference to nothing
        \o NoText(11, TRUE)                                                       \* not a schema
        \o NoText(13, FALSE)                                                      \* not text

No == 0
Worlds == {[a |-> x, b |-> y, c |-> z, h |-> w, aa |-> v] :
              x \in {1, 2, 3, 4, 6, 10, 11, 13}, y \in {No, 7, 8, 1, 5, 12, 14}, z \in {No, 2, 4, 11}, w \in {No, 2, 13}, v \in {No, 1}}
Shallow(w) == Deep \/ ((w.c \in {No, 2} \/ w.h = No) /\ (w.aa = No \/ (w.c = No /\ w.h = No)))

F(p, c) == IF c = No THEN <<>> ELSE <<[path |-> p, kind |-> "file", c |-> c]>>
TreeOf(w) == <<[path |-> <<D>>, kind |-> "dir"], [path |-> <<D, D>>, kind |-> "dir"], [path |-> <<D, <<101>> \o Ext>>, kind |-> "dir"]>>
             \o F(A, w.a) \o F(B, w.b) \o F(C, w.c) \o F(H, w.h) \o F(AA, w.aa) \o F(T, 2)

Project1 == [k |-> "project", pats |-> <<Star \o L(Ext), L(D) \o Sep \o Star>>]
Sels == { Project1,
          [k |-> "project", pats |-> <<Pre \o Star>>],
          [k |-> "globs", pats |-> <<Star>>],
          [k |-> "globs", pats |-> <<L(D) \o Sep \o Star \o L(Ext)>>],
          [k |-> "globs", pats |-> <<Pre \o Star \o L(Ext)>>],
          [k |-> "globs", pats |-> <<L(<<97>> \o Ext), Star \o L(Ext)>>] }

VARIABLES tree, act, old
vars == <<tree, act, old>>

Nothing == [op |-> "none"]
Init == /\ \E w \in {v \in Worlds : Shallow(v)} : tree = TreeOf(w)
        /\ act = Nothing /\ old = <<>>

With(t, cs) == [i \in 1..Len(t) |-> IF t[i].kind = "file" THEN [t[i] EXCEPT !.c = (CHOOSE x \in cs : x[1] = t[i].path)[2]] ELSE t[i]]

Fmt(sel) ==
    LET s == Chosen(tree, sel) IN
    /\ tree' = With(tree, Formatted(Pool, tree, s))
    /\ act' = [op |-> "fmt", sel |-> sel, wrote |-> Rewritten(Pool, tree, s), verdict |-> "ok", outs |-> {}]
Check(sel) ==
    /\ tree' = tree
    /\ act' = [op |-> "check", sel |-> sel, wrote |-> {}, verdict |-> Checked(Pool, tree, Chosen(tree, sel)), outs |-> {}]
Go(sel) ==
    LET s == Chosen(tree, sel)  v == Checked(Pool, tree, s) IN
    /\ tree' = tree
    /\ act' = [op |-> "go", sel |-> sel, wrote |-> {}, verdict |-> v,
               outs |-> IF v = "bad" THEN {} ELSE UNION {GoFiles("p", Pool[At(tree, p)].defs) : p \in s}]
Build(sel) ==
    LET s == Chosen(tree, sel)  v == Built(Pool, tree, s) IN
    /\ tree' = tree
    /\ act' = [op |-> "build", sel |-> sel, wrote |-> {}, verdict |-> v, outs |-> IF v = "bad" THEN {} ELSE Produced(s)]

\* one command after another; two in a row are enough for every pair of them
Next == /\ act = Nothing \/ (Deep /\ act.op = "fmt")
        /\ \E sel \in Sels : Fmt(sel) \/ Check(sel) \/ (sel.k = "project" /\ (Build(sel) \/ Go(sel)))
        /\ old' = tree
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ laws
\* formatting settles, touches nothing but what it should, and changes no verdict
FmtTwice == act.op = "fmt" => /\ Rewritten(Pool, tree, Chosen(tree, act.sel)) = {}
                              /\ Formatted(Pool, tree, Chosen(tree, act.sel)) = Contents(tree)
FmtOnly == act.op = "fmt" => \A x \in Contents(old) : x \in Contents(tree) \/ x[1] \in act.wrote
FmtPaths == act.op # "none" => {x[1] : x \in Contents(tree)} = {x[1] : x \in Contents(old)}
FmtVerdict == act.op = "fmt" => \A s \in Sels : Checked(Pool, tree, Chosen(tree, s)) = Checked(Pool, old, Chosen(old, s))
\* what builds is what checks, and each schema has a package of its own but for the one it shares with all
GoCheck == act.op = "go" => /\ act.verdict = Checked(Pool, tree, Chosen(tree, act.sel))
                            /\ (act.verdict = "ok" /\ Chosen(tree, act.sel) # {}) => <<"p", "p.go">> \in act.outs
\* what builds is what checks
BuildCheck == act.op = "build" => (act.verdict = "ok" => Checked(Pool, tree, Chosen(tree, act.sel)) = "ok")
BuildAll == (act.op = "build" /\ act.verdict = "ok") => Cardinality(act.outs) = Cardinality(Chosen(tree, act.sel))

Short(t) == [i \in 1..Len(t) |-> t[i]]
Emit == act.op = "none" \/ PrintT("STEP " \o ToJson(
            [op |-> act.op, k |-> act.sel.k, pats |-> [i \in 1..Len(act.sel.pats) |-> PText(act.sel.pats[i])],
             before |-> SetToSeq(Contents(old)), after |-> SetToSeq(Contents(tree)), wrote |-> SetToSeq(act.wrote),
             many |-> Cardinality(Chosen(tree, act.sel)) > 1, verdict |-> act.verdict, outs |-> SetToSeq(act.outs)]))
EmitPool == act # Nothing \/ tree # TreeOf([a |-> 1, b |-> No, c |-> No, h |-> No, aa |-> No])
            \/ PrintT("POOL " \o ToJson([i \in 1..Len(Pool) |-> Pool[i]]))
=============================================================================
