------------------------------ MODULE Processor ------------------------------
(* The message processor between the network and the transition frontier:    *)
(* blocks go through a bounded channel (BlockCap) to the frontier, requests  *)
(* for blocks through another one back to the network.  ReqCap = 0 stands    *)
(* for a request queue without bound (as repaired); ReqCap = 1 is the        *)
(* original, which deadlocks.                                                *)
(* What the frontier does in add_block and the network in query_block is up  *)
(* to the environment, one step at a time; everything the processor does by  *)
(* itself is done by Settle.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS BlockCap, ReqCap
(* state s:                                                                  *)
(*   chanB, waitB   blocks in the channel, blocks whose sender waits         *)
(*   adding         the block being added (0: none)                          *)
(*   chanR, waitR   requests in the channel, request whose sender waits      *)
(*   querying       the request being answered (0: none)                     *)
(*   nb, nr         numbers of blocks and requests so far                    *)
(*   sent, added    blocks in the order they were sent; handed to frontier   *)
(*   queried        requests handed to the network                           *)
(* a block is [id, good, by]: by is "net" or "query"                         *)
Empty0 == [chanB |-> << >>, waitB |-> << >>, adding |-> 0, chanR |-> << >>, waitR |-> << >>, querying |-> 0,
           nb |-> 0, nr |-> 0, sent |-> << >>, added |-> << >>, queried |-> << >>]
TakeBlock(s) ==
  LET b == Head(s.chanB)
      rest == IF s.waitB = << >> THEN Tail(s.chanB) ELSE Append(Tail(s.chanB), Head(s.waitB))
      w == IF s.waitB = << >> THEN << >> ELSE Tail(s.waitB)
  IN [s EXCEPT !.chanB = rest, !.waitB = w, !.adding = IF b.good THEN b.id ELSE 0,
               !.added = IF b.good THEN Append(@, b.id) ELSE @]
TakeRequest(s) ==
  [s EXCEPT !.chanR = IF s.waitR = << >> THEN Tail(@) ELSE Append(Tail(@), Head(s.waitR)),
            !.waitR = IF s.waitR = << >> THEN << >> ELSE Tail(@),
            !.querying = Head(s.chanR), !.queried = Append(@, Head(s.chanR))]
RECURSIVE Settle(_)
Settle(s) == IF s.adding = 0 /\ s.chanB # << >> THEN Settle(TakeBlock(s))
             ELSE IF s.querying = 0 /\ s.chanR # << >> THEN Settle(TakeRequest(s))
             ELSE s
AddBlocked(s) == s.waitR # << >>
QueryBlocked(s) == \E i \in 1..Len(s.waitB) : s.waitB[i].by = "query"
NetWaiting(s) == Cardinality({ i \in 1..Len(s.waitB) : s.waitB[i].by = "net" })
SendBlock(s, good, by) ==
  LET b == [id |-> s.nb + 1, good |-> good, by |-> by]
      t == [s EXCEPT !.nb = @ + 1, !.sent = Append(@, b)]
  IN IF s.waitB = << >> /\ Len(s.chanB) < BlockCap THEN [t EXCEPT !.chanB = Append(@, b)] ELSE [t EXCEPT !.waitB = Append(@, b)]
SendRequest(s) ==
  LET r == s.nr + 1 t == [s EXCEPT !.nr = r] IN
  IF ReqCap = 0 \/ Len(s.chanR) < ReqCap THEN [t EXCEPT !.chanR = Append(@, r)] ELSE [t EXCEPT !.waitR = Append(@, r)]
(* the actions: what is possible in s, and its effect *)
Able(s, a) == CASE a = "push" \/ a = "pushbad" -> TRUE
                [] a = "request" \/ a = "added" \/ a = "failadd" -> s.adding # 0 /\ ~AddBlocked(s)
                [] OTHER -> s.querying # 0 /\ ~QueryBlocked(s)
Do(s, a) == Settle(CASE a = "push" -> SendBlock(s, TRUE, "net")
                     [] a = "pushbad" -> SendBlock(s, FALSE, "net")
                     [] a = "request" -> SendRequest(s)
                     [] a = "added" \/ a = "failadd" -> [s EXCEPT !.adding = 0]
                     [] a = "respond" -> SendBlock(s, TRUE, "query")
                     [] a = "respondbad" -> SendBlock(s, FALSE, "query")
                     [] a = "answered" \/ a = "failquery" -> [s EXCEPT !.querying = 0])
Actions == {"push", "pushbad", "request", "added", "failadd", "respond", "respondbad", "answered", "failquery"}
(* frontier and network wait for each other for ever *)
Deadlocked(s) == AddBlocked(s) /\ QueryBlocked(s)
=============================================================================
