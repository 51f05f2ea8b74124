------------------------------- MODULE MCProject -------------------------------
(***************************************************************************)
(* Enumerates small projects (THEME: glob, rules, nest, toml), checks the  *)
(* laws of selection on each and prints it with what it selects.           *)
(***************************************************************************)
EXTENDS Project, Json, IOUtils

Theme == IOEnv.THEME
Deep == IOEnv.DEEP = "1"

L(bs) == [i \in 1..Len(bs) |-> <<"lit", bs[i]>>]
A == <<97>>  B == <<98>>  D == <<100>>  H == <<46, 104>>
AM == A \o Ext  BM == B \o Ext  HM == H \o Ext
Txt == <<97, 46, 116, 120, 116>>

F(p) == [path |-> p, kind |-> "file"]
Dir(p) == [path |-> p, kind |-> "dir"]
Rules(p, rs) == [path |-> p, kind |-> "rules", rules |-> rs]

Tree == << F(<<AM>>), F(<<BM>>), F(<<Txt>>), F(<<HM>>), F(<<AM \o <<46, 98>> >>), F(<<Ext>>),
           Dir(<<D>>), F(<<D, AM>>), F(<<D, Txt>>), Dir(<<D, A>>), F(<<D, A, BM>>), F(<<D, A, AM>>), Dir(<<D, B>>), F(<<D, B, AM>>),
           Dir(<<A>>), F(<<A, AM>>), Dir(<<H>>), F(<<H, AM>>), Dir(<<D \o Ext>>), F(<<D \o Ext, AM>>) >>

\* components of patterns
Comps == { L(AM), L(A), L(D), <<<<"star">>>>, <<<<"star">>>> \o L(Ext), <<<<"any">>>> \o L(Ext), <<<<"set", <<97, 100>>, FALSE>>>> \o L(Ext),
           <<<<"alt", <<L(A), L(B)>>>>>> \o L(Ext), <<<<"alt", <<L(A), <<<<"star">>>>>>>>>>, L(A) \o <<<<"star">>>>, <<<<"set", <<97>>, TRUE>>>> \o L(Ext),
           <<<<"star">>>> \o L(A) \o <<<<"star">>>>, <<<<"alt", <<L(AM), <<>>, <<<<"any">>>> \o L(Ext)>>>>>> }
Few == { L(AM), L(D), <<<<"star">>>>, <<<<"star">>>> \o L(Ext), <<<<"any">>>> }

\* ways to put components together
Pats ==
    Comps
    \cup {x \o <<<<"sep">>>> \o y : x \in Comps, y \in Comps}
    \cup {x \o <<<<"mid">>>> \o y : x \in Few, y \in Comps}
    \cup {<<<<"pre">>>> \o x : x \in Comps}
    \cup {<<<<"pre">>>> \o x \o <<<<"sep">>>> \o y : x \in Few, y \in Comps}
    \cup {x \o <<<<"suf">>>> : x \in Comps}
    \cup {x \o <<<<"sep">>>> \o y \o <<<<"sep">>>> \o z : x \in Few, y \in Few, z \in (IF Deep THEN Comps ELSE Few)}
    \cup {<<<<"pre">>>> \o x \o <<<<"mid">>>> \o y : x \in Few, y \in (IF Deep THEN Comps ELSE Few)}
    \cup { <<<<"all">>>> }

AllMabo == << <<<<"pre">>, <<"star">>>> \o L(Ext) >>

\* rules
RPats == { L(AM), L(A), L(D), <<<<"star">>>>, <<<<"star">>>> \o L(Ext), L(D) \o <<<<"sep">>>> \o L(A), L(D) \o <<<<"sep">>, <<"star">>>>,
           <<<<"pre">>>> \o L(A), L(D) \o <<<<"suf">>>>, L(H), <<<<"star">>>> \o L(A) \o <<<<"star">>>> }
RuleSet == {[neg |-> n, root |-> r, dir |-> d, pat |-> p] : n \in BOOLEAN, r \in BOOLEAN, d \in BOOLEAN, p \in RPats}
Plain == {[neg |-> FALSE, root |-> FALSE, dir |-> FALSE, pat |-> p] : p \in RPats}
Small == {r \in RuleSet : r.pat \in {L(AM), L(A), L(D), <<<<"star">>>>} /\ ~r.root}

Git == <<Dir(<<GitDir>>)>>
RuleTrees ==
       {Tree \o <<Rules(<<Ignore>>, <<r>>)>> : r \in RuleSet}
  \cup {Tree \o Git \o <<Rules(<<GitIgnore>>, <<q, r>>)>> : q \in Plain, r \in (IF Deep THEN RuleSet ELSE Small)}
  \cup {Tree \o <<Rules(<<GitIgnore>>, <<r>>)>> : r \in Small}
  \cup {Tree \o Git \o <<Rules(<<GitIgnore>>, <<q>>), Rules(<<D, GitIgnore>>, <<r>>)>> : q \in Plain, r \in Small}
  \cup {Tree \o Git \o <<Rules(<<Ignore>>, <<q>>), Rules(<<D, GitIgnore>>, <<r>>)>> : q \in Small, r \in Small}
  \cup {Tree \o <<Rules(<<D, Ignore>>, <<q>>), Rules(<<D, A, Ignore>>, <<r>>)>> : q \in Small, r \in Small}
  \cup {Tree \o Git \o <<Dir(<<D, GitDir>>), Rules(<<GitIgnore>>, <<q>>), Rules(<<D, GitIgnore>>, <<r>>)>> : q \in Small, r \in Small}

\* projects and links anywhere
Tomls == { <<>>, <<D>>, <<D, A>>, <<A>>, <<H>> }
Links == { [path |-> <<B>>, kind |-> "link", to |-> <<D>>], [path |-> <<A, B>>, kind |-> "link", to |-> <<D, A>>],
           [path |-> <<D, A, D \o Ext>>, kind |-> "link", to |-> <<Txt>>], [path |-> <<A, Txt>>, kind |-> "link", to |-> <<AM>>],
           [path |-> <<D, <<99>> \o Ext>>, kind |-> "link", to |-> <<HM>>] }
NestTrees ==
    {Tree \o SetToSeq({F(t \o <<TomlName>>) : t \in T}) \o SetToSeq(K) \o i : T \in SUBSET Tomls, K \in {k \in SUBSET Links : Cardinality(k) <= (IF Deep THEN 3 ELSE 1)},
        i \in {<<>>, <<Rules(<<Ignore>>, <<[neg |-> FALSE, root |-> FALSE, dir |-> FALSE, pat |-> L(A)]>>)>>,
               <<Rules(<<D, Ignore>>, <<[neg |-> FALSE, root |-> FALSE, dir |-> FALSE, pat |-> L(TomlName)]>>)>>}}

\* project files: what is right (ok), absent (no), of another type (type) or wrong (bad)
TomlFiles == {[syntax |-> s, package |-> p, name |-> n, files |-> f, license |-> l, more |-> m] :
                 s \in {"ok", "bad"}, p \in {"ok", "no"}, n \in {"ok", "no", "type"}, f \in {"ok", "none", "no", "type", "bad"},
                 l \in {"ok", "no", "bad", "type"}, m \in BOOLEAN}
GoodToml(t) == t.syntax = "ok" /\ t.package = "ok" /\ t.name = "ok" /\ t.files \in {"ok", "none"} /\ t.license \in {"ok", "no"}

Cases ==
    CASE Theme = "glob" -> {[tree |-> Tree, pats |-> <<p>>] : p \in Pats}
                           \cup {[tree |-> Tree, pats |-> <<p, q>>] : p \in Few, q \in Few} \cup {[tree |-> Tree, pats |-> <<>>]}
      [] Theme = "rules" -> {[tree |-> t, pats |-> AllMabo] : t \in RuleTrees}
      [] Theme = "nest" -> {[tree |-> t, pats |-> AllMabo] : t \in NestTrees}
      [] Theme = "toml" -> {[toml |-> t] : t \in TomlFiles}

VARIABLE c
Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

Shown(t) == [i \in 1..Len(t) |-> IF t[i].kind = "rules"
                                THEN [path |-> t[i].path, kind |-> "rules", lines |-> [j \in 1..Len(t[i].rules) |-> RuleText(t[i].rules[j])]] ELSE t[i]]
Emit ==
    IF Theme = "toml" THEN PrintT("TOML " \o ToJson([toml |-> c.toml, good |-> GoodToml(c.toml)]))
    ELSE PrintT("CASE " \o ToJson(
            [tree |-> Shown(c.tree), pats |-> [i \in 1..Len(c.pats) |-> PText(c.pats[i])],
             files |-> SetToSeq(Selected(c.tree, c.pats)),
             found |-> SetToSeq({<<d, SetToSeq(SelectedIn(c.tree, d, c.pats))>> : d \in Discovered(c.tree)})]))

S(ps) == Selected(c.tree, ps)
\* each pattern on its own
Union2 == Theme = "toml" \/ S(c.pats) = UNION {S(<<c.pats[i]>>) : i \in 1..Len(c.pats)}
\* only schemas
Schemas == Theme = "toml" \/ \A p \in S(c.pats) : HasExt(p) /\ \A n \in 1..Len(p) : Len(p[n]) > 0
\* a pattern without ** stays at its depth
Shallow ==
    Theme = "toml" \/ \A i \in 1..Len(c.pats) :
        LET p == c.pats[i] IN
        (\A j \in 1..Len(p) : ~(p[j][1] \in {"pre", "mid", "suf", "all"})) =>
            \A f \in S(<<p>>) : Len(f) - 1 = Cardinality({j \in 1..Len(p) : p[j][1] = "sep"})
\* nothing but rules to take back can add anything; and rules only ever concern what they are for
Without == IF Theme = "toml" THEN {} ELSE Selected(SelectSeq(c.tree, LAMBDA e : e.kind # "rules"), c.pats)
Antitone ==
    Theme = "toml" \/
    ((\A i \in 1..Len(c.tree) : c.tree[i].kind = "rules" => \A j \in 1..Len(c.tree[i].rules) : ~c.tree[i].rules[j].neg) => S(c.pats) \subseteq Without)
\* what is found from above is found from inside, if no rules reach in from above
Inside ==
    (Theme = "nest" /\ (IF Theme = "nest" THEN \A i \in 1..Len(c.tree) : c.tree[i].kind \notin {"rules", "link"} ELSE FALSE)) =>
        \A d \in Discovered(c.tree) : \A f \in SelectedIn(c.tree, d, c.pats) : d \o f \in S(c.pats) \/ d = <<H>>
=============================================================================
