------------------------------- MODULE NodeStatus -------------------------------
(* The page's peer to peer part: it dials a proxy and hears how nodes are.     *)
(*                                                                             *)
(* A request that is no request, or names no address, is refused and nothing   *)
(* is dialled.  A dial that fails is answered: no success, with the reason.    *)
(* After a dial the page listens for good: every peer that connects is asked   *)
(* once for its status, and what it answers is a stream of lines.  Every line  *)
(* that is a status is handed to the page at once, in the order of the stream, *)
(* whatever came before it and wherever the stream is cut into packets; other  *)
(* lines are passed over.  A stream is over where it ends, fails, or has a     *)
(* line that is no text; then the next peer has its turn.                      *)
EXTENDS Naturals, Sequences
CONSTANTS MaxEvents, MaxLines, Lines, Requests
VARIABLES request, dial, listens,      \* the request, what becomes of the dial, whether the page wants to hear
          phase,                       \* "new", "calm", "reading", "answered"
          events, streams, ends,       \* what has happened: events, and the lines of each stream, and how it was over
          asked, told, answer          \* what the page did
vars == << request, dial, listens, phase, events, streams, ends, asked, told, answer >>

Tells(l) == l \in {"status", "other", "padded", "crlf", "extra"}
Breaks(l) == l = "notext"
Ends == {"end", "fails", "cut", "cutfails"}      \* cut: a last status without the end of its line
Fresh == /\ phase = "new" /\ events = << >> /\ streams = << >> /\ ends = << >> /\ asked = << >> /\ told = << >> /\ answer = "none"

Connect == /\ phase = "new"
           /\ IF request # "good" THEN phase' = "answered" /\ answer' = "refused"
              ELSE IF dial = "fails" THEN phase' = "answered" /\ answer' = "failed"
              ELSE phase' = "calm" /\ answer' = "none"
           /\ UNCHANGED << request, dial, listens, events, streams, ends, asked, told >>
(* a peer connects, again or for the first time; something else happens *)
Heard(e) == /\ phase = "calm" /\ Len(events) < MaxEvents
            /\ events' = Append(events, e)
            /\ IF e[1] = "connected" THEN /\ asked' = Append(asked, e[2]) /\ streams' = Append(streams, << >>) /\ phase' = "reading"
               ELSE UNCHANGED << asked, streams, phase >>
            /\ UNCHANGED << request, dial, listens, ends, told, answer >>
Here == Len(streams)
Total == Len(streams[1]) + (IF Here > 1 THEN Len(streams[2]) ELSE 0)
Line(l) == /\ phase = "reading" /\ Total < MaxLines
           /\ streams' = [streams EXCEPT ![Here] = Append(@, l)]
           /\ told' = IF Tells(l) /\ listens THEN Append(told, << Here, Len(streams[Here]) + 1 >>) ELSE told
           /\ IF Breaks(l) THEN ends' = Append(ends, "end") /\ phase' = "calm" ELSE UNCHANGED << ends, phase >>
           /\ UNCHANGED << request, dial, listens, events, asked, answer >>
Over(e) == /\ phase = "reading"
           /\ ends' = Append(ends, e) /\ phase' = "calm"
           /\ told' = IF e = "cut" /\ listens THEN Append(told, << Here, Len(streams[Here]) + 1 >>) ELSE told
           /\ UNCHANGED << request, dial, listens, events, streams, asked, answer >>
Step == Connect \/ (\E e \in {"connected", "other"} \X {1, 2} : Heard(e)) \/ (\E l \in Lines : Line(l)) \/ (\E e \in Ends : Over(e))

(* nothing is dialled, asked or handed over for a request that is refused, or a dial that fails *)
Idle == answer # "none" => asked = << >> /\ told = << >> /\ streams = << >>
(* it goes on listening: there is an answer only where there is nothing to listen to *)
Stays == (answer # "none") = (phase = "answered") /\ (answer = "refused") = (phase = "answered" /\ request # "good")
(* one question for each connection, in their order *)
RECURSIVE Connections(_)
Connections(es) == IF es = << >> THEN << >> ELSE (IF Head(es)[1] = "connected" THEN << Head(es)[2] >> ELSE << >>) \o Connections(Tail(es))
AskedOnce == asked = Connections(events) /\ Len(streams) = Len(asked)
(* what is handed over are the statuses that came, each once, in their order *)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
InOrder == \A i, j \in DOMAIN told : i < j => Before(told[i], told[j])
Came == { p \in (1..Here) \X (1..MaxLines + 1) :
            \/ p[2] <= Len(streams[p[1]]) /\ Tells(streams[p[1]][p[2]])
            \/ p[2] = Len(streams[p[1]]) + 1 /\ p[1] <= Len(ends) /\ ends[p[1]] = "cut" }
AllOfThem == { told[i] : i \in DOMAIN told } = (IF listens THEN Came ELSE {})
=================================================================================
