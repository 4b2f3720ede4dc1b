------------------------------- MODULE Messages ------------------------------
(***************************************************************************)
(* Conversations written with the message helpers: what each helper makes  *)
(* of its content, and that the conversation reaches the server as written.*)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Helpers,   \* subset of {"system", "user", "assistant", "tool"}
          Parts,     \* what a list may contain: "text", "image", "refusal", "call", "stump" (something with the type of a call but no function)
          MaxParts, MaxMessages, Sim
VARIABLES msgs, pc
vars == <<msgs, pc>>
Pick(X) == IF Sim THEN {RandomElement(X)} ELSE X

\* contents: [k |-> "text" | "one" | "list", parts |-> kinds]
For(h) == CASE h = "assistant" -> Parts \ {"image"} [] h = "user" -> Parts \cap {"text", "image"} [] OTHER -> Parts \cap {"text"}
Lists(h) == UNION {[1 .. n -> For(h)] : n \in 1 .. MaxParts}
Contents(h) == {[k |-> "text", parts |-> <<>>]} \cup {[k |-> "list", parts |-> l] : l \in Lists(h)}
               \cup (IF h = "assistant" THEN {[k |-> "one", parts |-> <<p>>] : p \in Parts \cap {"call"}} ELSE {})
\* an assistant's content is its tool calls if it consists of nothing else
IsCalls(c) == c.k # "text" /\ \A i \in DOMAIN c.parts : c.parts[i] = "call"
Built(h, c) == [role |-> h, calls |-> IF h = "assistant" THEN IsCalls(c) ELSE FALSE, content |-> c]

Init == msgs = <<>> /\ pc = "go"
Add == /\ pc = "go" /\ Len(msgs) < MaxMessages
       /\ \E h \in Pick(Helpers) : \E c \in Pick(Contents(h)) : msgs' = Append(msgs, Built(h, c))
       /\ pc' = pc
End == pc = "go" /\ Len(msgs) = MaxMessages /\ pc' = "end" /\ msgs' = msgs
Next == Add \/ End
Spec == Init /\ [][Next]_vars
Roles == \A i \in DOMAIN msgs : msgs[i].calls => msgs[i].role = "assistant"
Only == \A i \in DOMAIN msgs : msgs[i].calls => \A j \in DOMAIN msgs[i].content.parts : msgs[i].content.parts[j] = "call"
Emit == pc = "end" => PrintT("@@" \o ToJson([msgs |-> msgs]))
==============================================================================
