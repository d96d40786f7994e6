-------------------------------- MODULE MC_Fetch --------------------------------
(* How a page gets one document: up to three tries of the same request, until  *)
(* one is answered; the answer of that try is the result, and if no try is     *)
(* answered the failure of the last one is.                                    *)
EXTENDS Naturals, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS Tries
VARIABLES what, script, tried, result
vars == << what, script, tried, result >>
Kinds == {"block", "latest", "best"}
(* "unreachable": no connection; "garbled": no JSON; "shapeless": JSON that lacks what was asked for *)
Outcomes(w) == {"answer", "unreachable", "garbled"} \cup IF w = "block" THEN {} ELSE {"shapeless"}
Init == /\ what \in Kinds /\ script \in [1..Tries -> Outcomes(what)] /\ tried = 0 /\ result = << >>
Try == /\ result = << >> /\ tried < Tries
       /\ tried' = tried + 1
       /\ result' = IF script[tried'] = "answer" THEN << "ok", tried' >> ELSE IF tried' = Tries THEN << "failed", tried' >> ELSE << >>
       /\ UNCHANGED << what, script >>
Next == Try
Spec == Init /\ [][Next]_vars /\ WF_vars(Try)
Answered == \E i \in 1..Tries : script[i] = "answer"
Right == result # << >> => /\ (result[1] = "ok") = Answered
                           /\ result[2] = tried
                           /\ \A i \in 1..tried - 1 : script[i] # "answer"
Ends == <>(result # << >>)
Export == result # << >> => CSVWrite("%1$s", << ToJson([what |-> what, script |-> script, result |-> result]) >>, IOEnv.OUT)
=================================================================================
