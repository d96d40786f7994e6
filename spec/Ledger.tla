------------------------------- MODULE Ledger -------------------------------
(* A ledger database is an ordered map; accounts are under the keys that     *)
(* start with 254, in the order of their places.  Reading may fail from some *)
(* key on.  A walk over the accounts as a state machine: one entry at a time.*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Prefix == 254
RECURSIVE Below(_, _)
Below(x, y) == IF y = << >> THEN FALSE ELSE IF x = << >> THEN TRUE ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE Below(Tail(x), Tail(y))
AtLeast(x, y) == ~Below(x, y)
Sorted(ks) == SetToSortSeq(ks, Below)
IsAccount(k) == k # << >> /\ k[1] = Prefix
VARIABLES db,        \* key -> value
          fail,      \* << >> or << the key from which on reading fails >>
          at,        \* the keys still to be read
          out,       \* what the walk has yielded: values, "unreadable" or "failed"
          done
Fails(k) == fail # << >> /\ AtLeast(k, fail[1])
Good == {"A", "B"}
Yield(v) == IF v \in Good THEN v ELSE "unreadable"
Start == /\ at = Sorted({k \in DOMAIN db : AtLeast(k, << Prefix >>)}) /\ out = << >> /\ done = FALSE
(* beyond the accounts a failure may or may not come to light *)
Step == /\ ~done /\ UNCHANGED << db, fail >>
        /\ IF at = << >> \/ (~IsAccount(Head(at)) /\ ~Fails(Head(at))) THEN
             /\ UNCHANGED at /\ done' = TRUE
             /\ out' \in {out} \cup IF at = << >> /\ fail # << >> THEN {Append(out, "failed")} ELSE {}
           ELSE IF Fails(Head(at)) THEN
             /\ UNCHANGED at /\ done' = TRUE
             /\ out' \in {Append(out, "failed")} \cup IF IsAccount(Head(at)) THEN {} ELSE {out}
           ELSE at' = Tail(at) /\ out' = Append(out, Yield(db[Head(at)])) /\ done' = FALSE
Accounts == LET ks == Sorted({k \in DOMAIN db : IsAccount(k)}) IN [i \in 1..Len(ks) |-> db[ks[i]]]
(* whatever was yielded is so far right, a walk which ends without complaint has yielded every account *)
SoFar == \A i \in 1..Len(out) : out[i] # "failed" => i <= Len(Accounts) /\ out[i] = Yield(Accounts[i])
AllThere == done /\ (out = << >> \/ out[Len(out)] # "failed") => Len(out) = Len(Accounts)
=============================================================================
