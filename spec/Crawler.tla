-------------------------------- MODULE Crawler --------------------------------
(* The block crawler: which of the latest blocks are blocks.                   *)
(*                                                                             *)
(* It asks for the list, then looks at each block of it, some at a time.  A    *)
(* block found good before is not asked for again.  One found bad before is:   *)
(* the old verdict goes away first.  A document that arrives gets a verdict,   *)
(* "succeeded" if it is a block, "failed" if not, kept in a file with the      *)
(* document.  What does not arrive gets none.  No block keeps the others from  *)
(* being looked at, whatever it is called and whatever becomes of it.          *)
(*                                                                             *)
(* A verdict appears at once or not at all: whenever the crawler dies, what    *)
(* lies in the two folders are whole documents with the right verdict.         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Names
VARIABLES listed, list, outcome, width, fault,   \* what is given: whether there is a listing (none: empty), the listing, what becomes of each block, how many at a time, what writing does
          ok, no,                        \* the folders: name -> "none", "old" or "new"
          pc, asked, died
given == << listed, list, outcome, width, fault >>
vars == << given, ok, no, pc, asked, died >>
Outcomes == {"good", "bad", "small", "unnamed", "notjson", "unreachable", "broken", "status"}
IsBlock(o) == o = "good"
Arrives(o) == o \in {"good", "bad", "small"}   \* small: JSON that is not even an object; unnamed: a block no file can be called by
Jobs == 1..Len(list)
Running == { j \in Jobs : pc[j] \notin {"wait", "done"} }

Take(j) == /\ pc[j] = "wait" /\ \A i \in Jobs : i < j => pc[i] # "wait"
           /\ Cardinality(Running) < width
           /\ no' = [no EXCEPT ![list[j]] = "none"]
           /\ IF ok[list[j]] # "none" THEN pc' = [pc EXCEPT ![j] = "done"] /\ UNCHANGED asked
              ELSE pc' = [pc EXCEPT ![j] = "asked"] /\ asked' = Append(asked, list[j])
           /\ UNCHANGED << ok, died >>
(* writing a large document fails, or the crawler dies in it *)
Faulty(o) == fault # "none" /\ o # "small"
Judge(j) == /\ pc[j] = "asked"
            /\ LET n == list[j] o == outcome[n] IN
               IF ~Arrives(o) THEN pc' = [pc EXCEPT ![j] = "done"] /\ UNCHANGED << ok, no, died >>
               ELSE IF Faulty(o) THEN /\ pc' = [pc EXCEPT ![j] = "done"] /\ died' = (fault = "crash") /\ UNCHANGED << ok, no >>
               ELSE /\ pc' = [pc EXCEPT ![j] = "done"]
                    /\ IF IsBlock(o) THEN ok' = [ok EXCEPT ![n] = "new"] /\ UNCHANGED no ELSE no' = [no EXCEPT ![n] = "new"] /\ UNCHANGED ok
                    /\ UNCHANGED died
            /\ UNCHANGED asked
Step == ~died /\ (\E j \in Jobs : Take(j) \/ Judge(j)) /\ UNCHANGED given
Over == died \/ \A j \in Jobs : pc[j] = "done"

Listed(n) == \E j \in 1..Len(list) : list[j] = n
(* the verdicts are right *)
Right == \A n \in Names : /\ ok[n] = "new" => outcome[n] = "good"
                          /\ no[n] = "new" => outcome[n] \in {"bad", "small"}
(* and there is at most one new verdict *)
OneVerdict == \A n \in Names : ~(ok[n] = "new" /\ no[n] # "none")
(* every block of the list has been looked at in the end *)
Complete == (Over /\ ~died) => \A n \in Names : Listed(n) =>
              /\ (ok[n] = "old" \/ \E i \in DOMAIN asked : asked[i] = n)
              /\ (ok[n] = "none" /\ Arrives(outcome[n]) /\ ~Faulty(outcome[n])) => no[n] = "new"
              /\ no[n] = "old" => FALSE
(* a block found good before stays as it is and is not asked for *)
Kept == \A n \in Names : ok[n] = "old" => \A i \in DOMAIN asked : asked[i] # n
=================================================================================
