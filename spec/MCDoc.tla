-------------------------------- MODULE MCDoc --------------------------------
(***************************************************************************)
(* Every small schema of definitions of all kinds in nested modules.  Laws *)
(* of the layout: no two pages at the same path, modules below theirs, and *)
(* every relative link that a page can have ends at a page.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, DocGen

Depth == atoi(IOEnv.DEPTH)
Width == atoi(IOEnv.WIDTH)
U8 == [k |-> "u8"]
F(n, id, c) == [name |-> n, ty |-> U8, id |-> id, comment |-> c]
Leaves(n) == {[d |-> "struct", name |-> n, gen |-> <<>>, comment |-> <<>>, fields |-> [k |-> "unit", fs |-> <<>>]],
              [d |-> "struct", name |-> n, gen |-> <<"T">>, comment |-> <<"one", "two", "", "three">>,
               fields |-> [k |-> "named", fs |-> <<F("x", <<>>, <<"of x">>), [F("y", <<<<5>>>>, <<>>) EXCEPT !.ty = [k |-> "ext", path |-> <<>>, name |-> "T", ts |-> <<>>]]>>]],
              [d |-> "enum", name |-> n, gen |-> <<>>, comment |-> <<"", "late">>,
               variants |-> <<[name |-> "V", id |-> <<<<3>>>>, comment |-> <<"of V">>, fields |-> [k |-> "unnamed", fs |-> <<F("", <<>>, <<>>), F("", <<>>, <<>>)>>]],
                              [name |-> "W", id |-> <<>>, comment |-> <<>>, fields |-> [k |-> "named", fs |-> <<F("z", <<<<2>>>>, <<"a", "", "b">>)>>]],
                              [name |-> "Z", id |-> <<>>, comment |-> <<>>, fields |-> [k |-> "unit", fs |-> <<>>]]>>],
              [d |-> "alias", name |-> n, gen |-> <<>>, comment |-> <<"short">>, ty |-> U8],
              [d |-> "const", name |-> n, comment |-> <<>>, ty |-> U8, lit |-> [k |-> "int", v |-> "7"]]}
Mods == {"m", "index"}
RECURSIVE Defs(_, _)
RECURSIVE Size(_)
Size(defs) == IF defs = <<>> THEN 0 ELSE 1 + (IF Head(defs).d = "mod" THEN Size(Head(defs).defs) ELSE 0) + Size(Tail(defs))
Names == <<"A", "B", "C">>
\* sequences of definitions below a depth
Defs(n, d) ==
    IF n = 0 THEN {<<>>}
    ELSE LET rest == Defs(n - 1, d) IN
         rest \cup {Append(r, x) : r \in {q \in rest : Len(q) = n - 1},
                    x \in Leaves(Names[n]) \cup (IF d = 0 THEN {} ELSE {[d |-> "mod", name |-> m, comment |-> IF m = "m" THEN <<"the m">> ELSE <<>>, defs |-> ds]
                                                               : m \in Mods, ds \in Defs(IF d = 1 THEN Width ELSE 1, d - 1)})}
OnceNamed(defs) == \A i, j \in 1..Len(defs) : i # j => DefName(defs[i]) # DefName(defs[j])

VARIABLE defs
Init == defs \in {x \in Defs(Width, Depth) : OnceNamed(x)}
Next == UNCHANGED defs
Spec == Init /\ [][Next]_defs

ps == Paths("s", defs)
Emit == PrintT("CASE " \o ToJson(defs))
Laws == LET want == Wanted(defs, <<"s">>)
            all == SeqSet(ps)
            Page(p) == [path |-> p]
            Up(n) == [i \in 1..n |-> ".."] \o <<"index.html">>
        IN  /\ Cardinality(all) = Len(ps) /\ Len(ps) = Size(defs) + 1
            /\ \A k \in 1..Len(want) :
                /\ want[k].at \o <<"index.html">> \in all
                \* a page lies in the directory of its module; those of modules one below
                /\ \A i \in 1..Len(want[k].at) :
                    Target(Page(want[k].path), Up(Len(want[k].path) - 1 - i)) = SubSeq(want[k].at, 1, i) \o <<"index.html">>
                /\ Target(Page(want[k].at \o <<"index.html">>), File(want[k].d)) = want[k].path
=============================================================================
