------------------------------- MODULE MCLspDocs -------------------------------
(***************************************************************************)
(* Several documents at once, the name of one being the start of the name  *)
(* of another, with texts of the same length.                              *)
(* Every history of openings, replacements, edits, closings and deletions  *)
(* up to a length is printed.                                              *)
(*                                                                         *)
(* With DISK = "1", some of the documents are files that the server found   *)
(* in the workspace, with other contents than those they are opened with.  *)
(*                                                                         *)
(* TLC checks on the way that what the server owes for a document depends  *)
(* on nothing but the messages about it.                                   *)
(***************************************************************************)
EXTENDS Lsp, Json, IOUtils

Size == atoi(IOEnv.SIZE)
Uris == {"a", "ab", "a/b"}
T1 == <<120>>
T3 == <<119>>      \* as long as the first one
T2 == <<121, 10, 122>>

T4 == <<122>>
OnDisk == IF IOEnv.DISK = "1" THEN {"a", "a/b"} ELSE {}
Found == [m |-> "files", files |-> SetToSeq({[uri |-> u, text |-> <<T4>>] : u \in OnDisk})]

Msg(x) ==
    CASE x[1] = "open" -> [m |-> "open", uri |-> x[2], text |-> T1]
      [] x[1] = "other" -> [m |-> "open", uri |-> x[2], text |-> T3]
      [] x[1] = "full" -> [m |-> "change", uri |-> x[2], changes |-> <<<<T2>>>>]
      [] x[1] = "edit" -> [m |-> "change", uri |-> x[2], changes |-> <<<<<<0, 0>>, <<0, 1>>, T2>>>>]
      [] x[1] = "close" -> [m |-> "close", uri |-> x[2]]
      [] x[1] = "delete" -> [m |-> "delete", uris |-> SetToSeq(x[2])]
Letters == {<<k, u>> : k \in {"open", "other", "full", "edit", "close"}, u \in Uris} \cup {<<"delete", s>> : s \in {{u} : u \in Uris} \cup {Uris \ {u} : u \in Uris}}
About(x, u) == IF x[1] = "delete" THEN u \in x[2] ELSE x[2] = u

VARIABLE script
Init == script = <<>>
\* a history starts with openings, and there is no point in changing what was never opened
Next == /\ Len(script) < Size
        /\ \E x \in Letters :
              /\ x[1] \in {"full", "edit", "close"} => \E i \in 1..Len(script) : script[i] \in {<<"open", x[2]>>, <<"other", x[2]>>}
              /\ script' = Append(script, x)
Spec == Init /\ [][Next]_script

Msgs(s) == <<Found>> \o [i \in 1..Len(s) |-> Msg(s[i])]
St(s) == After(Msgs(s), "utf-8")
Independent ==
    \A u \in Uris :
        LET own == SelectSeq(script, LAMBDA x : About(x, u)) IN
        /\ DocOf(St(script), u) = DocOf(St(own), u)
        /\ SelectSeq(St(script).shown, LAMBDA x : x.uri = u) = SelectSeq(St(own).shown, LAMBDA x : x.uri = u)
\* opening says everything there is to know
Fresh == \A i \in 1..Len(script) : (script[i][1] = "open" /\ \A j \in (i + 1)..Len(script) : ~About(script[j], script[i][2]))
                                      => DocOf(St(script), script[i][2]) = Doc(T1)
\* deleted documents are gone
Gone == \A u \in Uris : (script # <<>> /\ script[Len(script)][1] = "delete" /\ About(script[Len(script)], u)) => DocOf(St(script), u) = None
\* files are known as they were, until they are opened or deleted
Kept == \A u \in Uris : (\A i \in 1..Len(script) : ~About(script[i], u)) => DocOf(St(script), u) = IF u \in OnDisk THEN Doc(T4) ELSE None
Emit == Len(script) = Size => PrintT("DOCS " \o ToJson([i \in 1..Size |-> IF script[i][1] = "delete" THEN <<"delete", SetToSeq(script[i][2])>> ELSE script[i]]))
=============================================================================
