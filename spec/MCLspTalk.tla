------------------------------- MODULE MCLspTalk -------------------------------
(***************************************************************************)
(* A client and the language server talking.  The client sends any         *)
(* sequence of messages from an alphabet; the server works on them one by  *)
(* one, and asks for the settings when it starts and whenever they change. *)
(* The answers to these questions may come late, wrong or never, and       *)
(* between any other messages.                                             *)
(*                                                                         *)
(* TLC checks that every request is answered exactly once and in order,    *)
(* whatever becomes of the server's own questions, and that every message  *)
(* is worked on.  Every script of the client is printed.                   *)
(***************************************************************************)
EXTENDS Lsp, Json, IOUtils

Size == atoi(IOEnv.SIZE)
Letters == IF IOEnv.LETTERS = "all"
           THEN {"open", "openbad", "insert", "replace", "full", "wrong", "close", "delete",
                 "symbols", "hover", "tokens", "unknown", "malformed", "noise", "junk",
                 "config", "good", "bad", "stray"}
           ELSE {"open", "insert", "symbols", "hover", "unknown", "config", "good", "bad", "stray"}

Requests == {"symbols", "hover", "tokens", "unknown", "malformed"}
Replies == {"good", "bad"}

VARIABLES script,    \* what the client sent
          inbox,     \* what the server did not look at yet: positions in the script
          asked,     \* the server's questions that the client did not answer yet
          answers,   \* positions of the requests that were answered
          worked     \* positions of the messages the server worked on
vars == <<script, inbox, asked, answers, worked>>

Init == script = <<>> /\ inbox = <<>> /\ asked = 1 /\ answers = <<>> /\ worked = <<>>

Send ==
    /\ Len(script) < Size
    /\ \E x \in Letters :
          /\ x \in Replies => asked > 0
          /\ script' = Append(script, x)
          /\ inbox' = Append(inbox, Len(script) + 1)
          /\ asked' = IF x \in Replies THEN asked - 1 ELSE asked
    /\ UNCHANGED <<answers, worked>>

Work ==
    /\ inbox # <<>>
    /\ LET i == Head(inbox) IN
          /\ answers' = IF script[i] \in Requests THEN Append(answers, i) ELSE answers
          /\ asked' = IF script[i] = "config" THEN asked + 1 ELSE asked
          /\ worked' = Append(worked, i)
    /\ inbox' = Tail(inbox)
    /\ UNCHANGED script

Next == Send \/ Work
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

Reqs(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] \in Requests)
OnlyRequests == \A i \in 1..Len(answers) : script[answers[i]] \in Requests
InOrder == answers = SubSeq(Reqs(script), 1, Len(answers))
Nothing == worked \o inbox = [i \in 1..Len(script) |-> i]
Settled == inbox = <<>> => answers = Reqs(script)
AllAnswered == [](inbox # <<>> => <>(inbox = <<>>))

\* the server is as fast as it can be in what is printed; other orders are up to the scheduler
Emit == (Len(script) = Size /\ inbox = <<>>) => PrintT("SCRIPT " \o ToJson(script))
=============================================================================
