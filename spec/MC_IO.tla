------------------------------- MODULE MC_IO -------------------------------
(* Encoding into and decoding from an environment that moves bytes as it     *)
(* likes.  A script of environment steps is followed cyclically, one step    *)
(* per call of the underlying reader/writer:                                 *)
(*    n > 0  move at most n bytes      0  move nothing (writer gives up)     *)
(*    -1     interrupted, to be retried    -2  fail, and every later call    *)
(* How the implementation splits its calls is not specified: each call       *)
(* offers any non-empty part of what remains.                                *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils

CONSTANTS MaxScript, Total   \* script length, number of bytes to move

VARIABLES dir, script, call, moved, st, hard, retries
vars == << dir, script, call, moved, st, hard, retries >>

Steps == {-2, -1, 0, 1, 2, 7}
Scripts == UNION { [1..n -> Steps] : n \in 1..MaxScript }
Useful(s) == \E i \in 1..Len(s) : s[i] # -1          \* an environment that only interrupts never lets go

Init == /\ dir \in {"read", "write"} /\ script \in { s \in Scripts : Useful(s) }
        /\ (dir = "read" => \A i \in 1..Len(script) : script[i] # 0)
        /\ call = 0 /\ moved = 0 /\ st = "run" /\ hard = FALSE /\ retries = 0

Step == script[(call % Len(script)) + 1]
Busy == st = "run" /\ moved < Total
Min(a, b) == IF a < b THEN a ELSE b
Move == /\ Busy /\ Step > 0
        /\ \E offered \in 1..(Total - moved) : moved' = moved + Min(Step, offered)
        /\ call' = (call + 1) % Len(script) /\ UNCHANGED << dir, script, st, hard, retries >>
Interrupted == /\ Busy /\ Step = -1 /\ call' = (call + 1) % Len(script)
               /\ UNCHANGED << dir, script, moved, st, hard, retries >>
Fault == /\ Busy /\ Step \in {0, -2} /\ hard' = TRUE /\ st' = "Io"
         /\ UNCHANGED << dir, script, call, moved, retries >>
Done == /\ st = "run" /\ moved = Total /\ st' = "ok" /\ UNCHANGED << dir, script, call, moved, hard, retries >>
Next == Move \/ Interrupted \/ Fault \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Complete  == st = "ok" => moved = Total            \* success means every byte was moved
Blame     == st = "Io" => hard                     \* an error is reported only if the environment failed
Progress  == [][moved' >= moved]_vars              \* never un-moves
Settles   == <>(st # "run")
ScriptHard == \E i \in 1..Len(script) : script[i] \in {0, -2}
NoFalseError == ~ScriptHard => st # "Io"

Export == (call = 0 /\ moved = 0 /\ st = "run") =>
            CSVWrite("%1$s", << ToJson([dir |-> dir, script |-> script]) >>, IOEnv.OUT)
=============================================================================
