-------------------------------- MODULE Backend --------------------------------
(* The networks of a page: what they ask of the outside and what they hand to  *)
(* the frontier.                                                               *)
(*                                                                             *)
(* "v1": a poll asks for the list of the latest blocks and then for each of    *)
(* them, in the order of the list; a block that cannot be had is left out.     *)
(* "berkeley": a poll asks every endpoint once for its best chain, about all   *)
(* tracked accounts, in any order; a poll that misses an answer says so, after *)
(* it has asked the other endpoints.                                           *)
(* A query asks for the one block (v1) or every endpoint (berkeley).           *)
(*                                                                             *)
(* Documents go through a channel of bounded capacity: a full channel makes    *)
(* the network wait, nothing is dropped.                                       *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
CONSTANTS Cap
VARIABLES kind, line, apis, accounts, job, chan, got, asked, log, docs
\* line: where blocks go: "unset", "open" or "closed"
\* job: the operation in progress: todo holds [who, doc, good], in order (v1) or not (berkeley)
\* docs: how many documents there have been, each document is a number
Idle == [op |-> "idle"]
Good == {"good", "anyjson"}
Seq2Set(s) == { s[i] : i \in 1..Len(s) }

Start0(k) == kind = k /\ line = "unset" /\ apis = {} /\ accounts = {} /\ job = Idle /\ chan = << >> /\ got = << >> /\ asked = << >> /\ log = << >> /\ docs = 0

Done(step, err) == /\ log' = Append(log, step @@ [err |-> err, asked |-> asked', got |-> got'])
                   /\ job' = Idle

Set(step) == /\ job = Idle /\ chan = << >>
             /\ got' = << >> /\ asked' = << >>
             /\ line' = (CASE step.op = "open" -> "open" [] step.op = "close" /\ line = "open" -> "closed" [] OTHER -> line)
             /\ apis' = (IF step.op = "apis" THEN Seq2Set(step.list) ELSE apis)
             /\ accounts' = (IF step.op = "accounts" THEN Seq2Set(step.list) ELSE accounts)
             /\ Done(step, FALSE)
             /\ UNCHANGED << kind, chan, docs >>

(* a poll or a query begins; list: what the question for the list gives (v1),  *)
(* answers: what the questions for the blocks give                             *)
Begin(step) ==
  /\ job = Idle /\ chan = << >>
  /\ got' = << >>
  /\ UNCHANGED << kind, line, apis, accounts, chan >>
  /\ IF line = "unset" THEN asked' = << >> /\ Done(step, FALSE) /\ UNCHANGED docs
     ELSE IF kind = "v1"
     THEN /\ asked' = (IF step.op = "poll" THEN << 0 >> ELSE << >>)
          /\ IF step.op = "poll" /\ step.list # "good" THEN Done(step, TRUE) /\ UNCHANGED docs
             ELSE /\ job' = [op |-> step.op, step |-> step, err |-> FALSE, hold |-> 0,
                             todo |-> [i \in 1..Len(step.answers) |-> [who |-> i, doc |-> docs + i, answer |-> step.answers[i]]]]
                  /\ docs' = docs + Len(step.answers)
                  /\ UNCHANGED log
     ELSE /\ asked' = << >>
          /\ job' = [op |-> step.op, step |-> step, err |-> FALSE, hold |-> 0,
                     todo |-> SetToSeq({ [who |-> a, doc |-> docs + step.rank[a], answer |-> step.answers[a]] : a \in apis })]
          /\ docs' = docs + Cardinality(DOMAIN step.answers)
          /\ UNCHANGED log

(* the next question, and its answer *)
Ask == /\ job # Idle /\ job.hold = 0 /\ job.todo # << >>
       /\ \E i \in IF kind = "v1" THEN {1} ELSE 1..Len(job.todo) :
            LET q == job.todo[i] IN
            /\ asked' = Append(asked, q.who)
            /\ job' = [job EXCEPT !.todo = RemoveAt(@, i),
                                  !.hold = IF q.answer \in Good /\ (kind = "berkeley" \/ q.answer = "good") THEN q.doc ELSE 0,
                                  !.err = @ \/ ((kind = "berkeley" \/ job.op = "query") /\ ~(q.answer \in Good /\ (kind = "berkeley" \/ q.answer = "good")))]
       /\ UNCHANGED << kind, line, apis, accounts, chan, got, log, docs >>
(* the document is handed over as soon as there is room *)
Send == /\ job # Idle /\ job.hold # 0
        /\ \/ line = "open" /\ Len(chan) < Cap /\ chan' = Append(chan, job.hold) /\ job' = [job EXCEPT !.hold = 0]
           \/ line = "closed" /\ job' = [job EXCEPT !.hold = 0, !.err = @ \/ kind = "berkeley" \/ job.op = "query"] /\ UNCHANGED chan
        /\ UNCHANGED << kind, line, apis, accounts, got, asked, log, docs >>
Take == /\ chan # << >> /\ got' = Append(got, Head(chan)) /\ chan' = Tail(chan)
        /\ UNCHANGED << kind, line, apis, accounts, job, asked, log, docs >>
Finish == /\ job # Idle /\ job.hold = 0 /\ job.todo = << >> /\ chan = << >>
          /\ UNCHANGED << kind, line, apis, accounts, chan, got, asked, docs >>
          /\ Done(job.step, job.err)
Work == Ask \/ Send \/ Take \/ Finish

(* whatever the order: every answer that is a document arrives, once, and in the order asked *)
End == log[Len(log)]
AllArrive == (job = Idle /\ log # << >> /\ End.op \in {"poll", "query"} /\ line = "open") =>
  /\ IsInjective(End.got)
  /\ kind = "v1" => /\ (End.asked = << >> \/ End.asked[1] # 0 \/ Len(End.asked) \in {1, 1 + Len(End.answers)})
                    /\ Len(End.got) = IF End.op = "poll" /\ End.list # "good" THEN 0 ELSE Cardinality({ i \in 1..Len(End.answers) : End.answers[i] = "good" })
                    /\ \A i, j \in 1..Len(End.got) : i < j => End.got[i] < End.got[j]
  /\ kind = "berkeley" => /\ Seq2Set(End.asked) = apis /\ IsInjective(End.asked)
                          /\ Len(End.got) = Cardinality({ a \in apis : End.answers[a] \in Good })
                          /\ End.err = (\E a \in apis : End.answers[a] \notin Good)
NothingUnasked == line = "unset" => docs = 0
================================================================================
