---------------------------------- MODULE Page ----------------------------------
(* What a page asks its node to do with an account, and what becomes of it.     *)
(*                                                                              *)
(* A call has fields.  Each is a text, which is taken as it is, or a number,    *)
(* which must be one (of 64 or 32 bits) or the call is refused before anything  *)
(* is sent; a number or text that is optional may be absent.  A call that is    *)
(* not refused sends one request that says the call's fields and nothing else.  *)
(* The node acts on a request that reaches it.  The page learns the node's      *)
(* answer as it was given, or that there is none: never does the call itself    *)
(* come to grief.  Nothing is sent twice.                                       *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES call, wire, node, answer, log
vars == << call, wire, node, answer, log >>
None == [op |-> "none"]
Nothing == [op |-> "nothing"]
Sent == [op |-> "sent"]

(* fields of the calls: name -> kind *)
Fields(op) ==
  CASE op = "lock" -> [publicKey |-> "text"]
    [] op = "info" -> [publicKey |-> "text"]
    [] op = "unlock" -> [publicKey |-> "text", password |-> "text"]
    [] op = "pay" -> [to |-> "text", from |-> "text", fee |-> "u64", amount |-> "u64",
                      nonce |-> "optu32", memo |-> "opttext", validUntil |-> "optu32any"]
(* classes of what a page may put in a field *)
TextClasses == {"plain", "empty", "quote", "backslash", "newline", "control", "unicode", "braces", "injection", "long"}
Good64 == {"zero", "one", "exact", "max", "text"}
Bad64 == {"over", "minus", "fraction", "nan", "huge", "absent", "null", "emptytext", "word", "truth"}
Classes(kind) ==
  CASE kind = "text" -> TextClasses
    [] kind = "opttext" -> TextClasses \cup {"absent", "null"}
    [] kind = "u64" -> Good64 \cup Bad64
    [] kind = "optu32" -> {"absent", "null", "zero", "one", "max32"}                 \* the page's binding gives a number of 32 bits
    [] kind = "optu32any" -> {"absent", "null", "emptytext", "zero", "one", "max32", "text", "over32", "minus", "fraction", "nan", "word"}
Plain(kind) == CASE kind \in {"text"} -> "plain" [] kind = "u64" -> "one" [] OTHER -> "absent"
(* what the request says of a field: "absent", "refused", or the field itself *)
Says(kind, class) ==
  CASE kind = "text" -> class
    [] kind = "opttext" -> IF class = "null" THEN "absent" ELSE class
    [] kind = "u64" -> IF class \in Good64 THEN class ELSE "refused"
    [] kind = "optu32" -> IF class = "null" THEN "absent" ELSE class
    [] kind = "optu32any" -> IF class \in {"null", "emptytext"} THEN "absent" ELSE IF class \in {"over32", "minus", "fraction", "nan", "word"} THEN "refused" ELSE class
Said(c) == [f \in DOMAIN c.fields |-> Says(Fields(c.op)[f], c.fields[f])]
Refused(c) == \E f \in DOMAIN c.fields : Said(c)[f] = "refused"

Begin(c) == /\ call = None
            /\ call' = c
            /\ answer' = "none"
            /\ wire' = (IF Refused(c) THEN Nothing ELSE [op |-> c.op, says |-> Said(c)])
            /\ UNCHANGED << node, log >>
(* the request gets through, or is lost on the way *)
Arrive == /\ call # None /\ wire \notin {Nothing, Sent}
          /\ node' = Append(node, wire) /\ wire' = Sent
          /\ answer' \in {"json", "error json", "not json", "empty", "broken"}
          /\ UNCHANGED << call, log >>
Lose == /\ call # None /\ wire \notin {Nothing, Sent}
        /\ wire' = Sent /\ answer' = "unreachable" /\ UNCHANGED << call, node, log >>
Return == /\ call # None /\ wire \in {Nothing, Sent}
          /\ log' = Append(log, [call |-> call, sent |-> wire = Sent, answer |-> answer,
                                 result |-> IF answer \in {"json", "error json"} THEN "answer" ELSE "error"])
          /\ call' = None /\ wire' = Nothing /\ answer' = "none" /\ UNCHANGED node
Start == call = None /\ wire = Nothing /\ node = << >> /\ answer = "none" /\ log = << >>

(* the node did what the calls asked, each once, in order *)
Meant == [i \in DOMAIN log |-> log[i]]
Reached == SelectSeq(Meant, LAMBDA e : e.sent /\ e.answer # "unreachable")
NodeDidWhatWasAsked == call = None => /\ Len(node) = Len(Reached)
                                      /\ \A i \in DOMAIN node : node[i] = [op |-> Reached[i].call.op, says |-> Said(Reached[i].call)]
RefusedCallsSendNothing == \A i \in DOMAIN log : Refused(log[i].call) => ~log[i].sent /\ log[i].result = "error"
AnswerOnlyFromNode == \A i \in DOMAIN log : log[i].result = "answer" => log[i].sent
=================================================================================
