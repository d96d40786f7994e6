----------------------------- MODULE MC_NodeStatus -----------------------------
EXTENDS NodeStatus, TLC, Json, CSV, IOUtils
CONSTANT Random
LineKinds == {"status", "other", "padded", "crlf", "extra", "blank", "junk", "nojson", "short", "odd", "notext"}
RequestKinds == {"good", "broken", "notext", "noaddress"}
Init == /\ request \in Requests /\ dial \in {"ok", "fails"} /\ (request # "good" => dial = "ok") /\ listens \in BOOLEAN
        /\ (Random => request = "good" /\ dial = "ok" /\ listens) /\ Fresh
Next == Step
Spec == Init /\ [][Next]_vars
Inv == Idle /\ Stays /\ AskedOnce /\ InOrder /\ AllOfThem
Told(old, new) == \E k \in 0..1 : Len(new) = Len(old) + k /\ SubSeq(new, 1, Len(old)) = old
(* what was handed over stays so *)
Steady == [][Told(told, told')]_vars
Done == phase = "answered" \/ (phase = "calm" /\ Len(events) = MaxEvents)
Export == Done => CSVWrite("%1$s", << ToJson([request |-> request, dial |-> dial, listens |-> listens, events |-> events, streams |-> streams, ends |-> ends,
                                              asked |-> asked, told |-> told, answer |-> answer]) >>, IOEnv.OUT)
=================================================================================
