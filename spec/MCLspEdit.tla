------------------------------- MODULE MCLspEdit -------------------------------
(***************************************************************************)
(* Edit histories of one document: every edit of small texts between every *)
(* two positions, and sequences of edits, in one notification or several.  *)
(* Each is printed with the text it results in.                            *)
(***************************************************************************)
EXTENDS Lsp, Json, IOUtils

Deep == IOEnv.DEEP = "1"
Enc == IOEnv.ENC

\* /// e-acute, grinning face / type A = u8;
T1 == <<47, 47, 47, 195, 169, 240, 159, 152, 128, 10, 116, 121, 112, 101, 32, 65, 61, 117, 56, 59, 10>>
\* with carriage returns, and a euro sign
T2 == <<115, 116, 114, 117, 99, 116, 32, 65, 13, 10, 47, 47, 47, 226, 130, 172, 13, 10, 115, 116, 114, 117, 99, 116, 32, 66, 13, 10>>
T3 == <<>>
\* not a schema
T4 == <<10, 195, 169, 10, 10, 240, 159, 152, 128>>
Texts == {T1, T2, T3, T4}

\* what is written: nothing, a letter, lines, characters of several units, a definition
News == {<<>>, <<66>>, <<10>>, <<195, 188>>, <<47, 47, 47, 240, 159, 152, 128, 120, 10>>,
         <<115, 116, 114, 117, 99, 116, 32, 67, 10>>}
FewNews == {<<>>, <<195, 188, 10>>, <<10, 115, 116, 114, 117, 99, 116, 32, 67, 10>>}

\* positions of all offsets that have one, and one beyond the end of each line
Spots(t) == {o \in Boundaries(t) : ~(o > 0 /\ t[o] = 13 /\ Byte(t, o + 1) = 10)}
Sparse(t) == {o \in Spots(t) : o = Len(t) \/ o = 0 \/ Byte(t, o) \in {10} \/ Byte(t, o) >= 128 \/ Byte(t, o + 1) \in {13, 61}}
Beyond(t) == {<<LineNo(t, Len(t)), 1000>>, <<0, 77>>}

VARIABLES start, text, notes, mode
vars == <<start, text, notes, mode>>

Init ==
    /\ start \in Texts /\ text = start /\ notes = <<>>
    /\ mode \in {"one", "two", "beyond"} \cup (IF Deep THEN {"three"} ELSE {})

Cover(S) == {<<a, b>> \in S \X S : a <= b}
Change(a, b, n) == <<Pos(text, a, Enc), Pos(text, b, Enc), n>>

\* an edit in the same notification as the last one, or in a new one
Extend(c, together) ==
    /\ notes' = IF together THEN [notes EXCEPT ![Len(notes)] = Append(@, c)] ELSE Append(notes, <<c>>)
    /\ text' = Apply(<<text>>, <<c>>, Enc)[1]
    /\ UNCHANGED <<start, mode>>

Count == FoldLeft(LAMBDA n, x : n + Len(x), 0, notes)

One ==
    /\ mode = "one" /\ Count = 0
    /\ \E ab \in Cover(Spots(text)), n \in News : Extend(Change(ab[1], ab[2], n), FALSE)

BeyondLine ==
    /\ mode = "beyond" /\ Count = 0
    /\ \E p \in Beyond(text), q \in Sparse(text), n \in FewNews :
          LET o == Off(text, p, Enc) IN
          \/ q <= o /\ Extend(<<Pos(text, q, Enc), p, n>>, FALSE)
          \/ o <= q /\ Extend(<<p, Pos(text, q, Enc), n>>, FALSE)

\* the first edits are made at few places only
Early ==
    /\ mode \in {"two", "three"} /\ Count < (IF mode = "two" THEN 1 ELSE 2)
    /\ \E ab \in Cover(Sparse(text)), n \in FewNews :
          /\ Deep \/ ab[2] = ab[1] \/ ab = <<0, Len(text)>> \/ \A k \in Sparse(text) : ~(ab[1] < k /\ k < ab[2])
          /\ mode = "three" => (ab[1] + ab[2]) % 3 = 0
          /\ \E g \in (IF notes = <<>> THEN {FALSE} ELSE BOOLEAN) : Extend(Change(ab[1], ab[2], n), g)

Final ==
    /\ mode \in {"two", "three"} /\ Count = (IF mode = "two" THEN 1 ELSE 2)
    /\ \/ \E ab \in Cover(Sparse(text)), n \in FewNews, g \in BOOLEAN :
             /\ Deep \/ ab[1] = ab[2] \/ (ab[1] = 0 /\ n = <<>>)
             /\ mode = "three" => ab[1] = ab[2]
             /\ Extend(Change(ab[1], ab[2], n), g)
       \/ \E g \in BOOLEAN : Extend(<<T1>>, g)

Next == One \/ BeyondLine \/ Early \/ Final
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* a position is that of exactly one place
RoundTrip == \A o \in Spots(text) : Off(text, Pos(text, o, Enc), Enc) = o
\* later places have later positions
Ordered ==
    \A a \in Boundaries(text) \ {Len(text)} :
        LET b == CHOOSE x \in Boundaries(text) : x > a /\ \A y \in Boundaries(text) : y > a => y >= x
            p == Pos(text, a, Enc)  q == Pos(text, b, Enc)
        IN  p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
\* the longer the units the fewer there are
Coarser == \A o \in Boundaries(text) :
    Pos(text, o, "utf-32")[2] <= Pos(text, o, "utf-16")[2] /\ Pos(text, o, "utf-16")[2] <= Pos(text, o, "utf-8")[2]
\* edits one after another are the same whether they arrive together or not
Composes == Apply(<<start>>, FoldLeft(LAMBDA a, x : a \o x, <<>>, notes), Enc) = <<text>>

Emit == notes # <<>> => PrintT("HIST " \o ToJson([enc |-> Enc, start |-> start, notes |-> notes, text |-> text]))
=============================================================================
