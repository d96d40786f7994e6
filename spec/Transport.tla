------------------------------- MODULE Transport -------------------------------
(* How a page's transport is put together.                                     *)
(*                                                                             *)
(* A transport keeps the private network it was last given, with that          *)
(* network's own key and way of multiplexing, the time limit it was last given *)
(* (a minute, without), and the identity it was made with.  Setting one leaves *)
(* the others alone.                                                           *)
EXTENDS Naturals, Sequences
CONSTANTS Configs, Times, MaxSteps
VARIABLES made, steps
vars == << made, steps >>
Keys == {"own", "given", "with"}
Names(c) == IF c = "b" THEN "/own/mplex" ELSE "/coda/mplex/1.0.0"
Net(c) == [default |-> "", mainnet |-> "/coda/0.0.1/5f704cc0c82e0ed70e873f0893d7e06f148524e3f0bdae2afb02e7819a0c24d1", a |-> "/coda/0.0.1/somewhere else", b |-> "x"][c]
Make(key, c) == [key |-> key, net |-> Net(c), mplex |-> Names(c), time |-> 60]
Start == \/ made = Make("own", "default") /\ steps = << << "new", "" >> >>
         \/ made = Make("given", "default") /\ steps = << << "key", "" >> >>
         \/ \E c \in Configs : made = Make("with", c) /\ steps = << << "keyconfig", c >> >>
Config(c) == made' = [made EXCEPT !.net = Net(c), !.mplex = Names(c)] /\ steps' = Append(steps, << "config", c >>)
Mainnet == made' = [made EXCEPT !.net = Net("mainnet"), !.mplex = Names("mainnet")] /\ steps' = Append(steps, << "mainnet", "" >>)
Timeout(t) == made' = [made EXCEPT !.time = t] /\ steps' = Append(steps, << "timeout", t >>)
Step == Len(steps) < MaxSteps /\ ((\E c \in Configs : Config(c)) \/ Mainnet \/ (\E t \in Times : Timeout(t)))

Last(what) == LET S == { i \in DOMAIN steps : steps[i][1] \in what } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
NetOf(s) == IF s[1] = "mainnet" THEN "mainnet" ELSE IF s[1] \in {"config", "keyconfig"} THEN s[2] ELSE "default"
KeepsLast == LET n == Last({"new", "key", "keyconfig", "config", "mainnet"}) t == Last({"timeout"}) IN
             /\ made.net = Net(NetOf(steps[n])) /\ made.mplex = Names(NetOf(steps[n]))
             /\ made.time = IF t = 0 THEN 60 ELSE steps[t][2]
Identity == made.key = [new |-> "own", key |-> "given", keyconfig |-> "with"][steps[1][1]]
=================================================================================
