------------------------------- MODULE Cursor -------------------------------
(***************************************************************************)
(* What the typed and the layout driven reader share: a stack of things    *)
(* still to be read (`todo`), the bytes supplied so far by the environment *)
(* (`inp`), whether more can come (`closed`), how many are consumed        *)
(* (`pos`), the value read so far (`toks`) and the status (`st`: "run",    *)
(* "ok", or the class of the error).                                       *)
(***************************************************************************)
EXTENDS Wire, TLC

VARIABLES todo, inp, closed, pos, toks, st

rvars == << todo, inp, closed, pos, toks, st >>

Rest == Tail(todo)
Top  == todo[1]
Avail == Len(inp) - pos
At(i) == inp[pos + i]
Slice(n) == SubSeq(inp, pos + 1, pos + n)

(* How many bytes, from pos on, the item on top of the stack needs; grows   *)
(* as the leading bytes become known.                                       *)
IntWidth(c)  == CASE c = CODE_NEG_INT8 -> 2 [] c = CODE_INT16 -> 3
                  [] c = CODE_INT32 -> 5 [] c = CODE_INT64 -> 9 [] OTHER -> 1
Nat0Width(c) == CASE c = CODE_INT16 -> 3 [] c = CODE_INT32 -> 5
                  [] c = CODE_INT64 -> 9 [] OTHER -> 1
IntNeed   == IF Avail < 1 THEN 1 ELSE IntWidth(At(1))
Nat0Need  == IF Avail < 1 THEN 1 ELSE Nat0Width(At(1))
BadLead(c, signed) == c >= 128 /\ c \notin ({CODE_INT16, CODE_INT32, CODE_INT64}
                                      \cup (IF signed THEN {CODE_NEG_INT8} ELSE {}))
(* the number denoted by the Nat0 at pos (all its bytes available) *)
Nat0At == IF Nat0Need = 1 THEN << At(1), 0, 0, 0, 0, 0, 0, 0 >>
          ELSE ExtendUnsigned(SubSeq(inp, pos + 2, pos + Nat0Need))
IntAt  == IF IntNeed = 1 THEN << At(1), 0, 0, 0, 0, 0, 0, 0 >>
          ELSE ExtendSigned(SubSeq(inp, pos + 2, pos + IntNeed))
StrNeed == IF Avail < Nat0Need \/ BadLead(At(1), FALSE) THEN Nat0Need
           ELSE Nat0Need + ToNat(Nat0At)

Running == st = "run"

(* results of a step *)
Accept(n, ts, more) == /\ pos' = pos + n
                       /\ toks' = toks \o ts
                       /\ todo' = more \o Rest
                       /\ UNCHANGED << inp, closed, st >>
Reject(c) == st' = c /\ UNCHANGED << todo, inp, closed, pos, toks >>


(* what from_reader_strict answers once the reader has stopped *)
Strict == IF st # "ok" THEN st
          ELSE IF pos = Len(inp) THEN "ok" ELSE "StreamNotFullyConsumed"

=============================================================================
