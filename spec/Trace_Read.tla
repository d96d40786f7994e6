----------------------------- MODULE Trace_Read -----------------------------
(* Validates recorded executions of the real typed reader: each record holds *)
(* the type, the bytes the reader was given and what it answered; the        *)
(* specification's reader is run on the same bytes and must answer the same. *)
EXTENDS BinProt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == \E j \in 1..Len(Trace) : i = j /\ RInit(Trace[j].ty, Trace[j].in, TRUE)
Next == Reader /\ UNCHANGED i
Spec == Init /\ [][Next]_<< rvars, i >>
r == Trace[i]
Conforms ==
  st # "run" =>
    CASE st = "ok"  -> /\ r.ok /\ r.toks = toks /\ r.n = pos /\ r.fr
                       /\ (IF r.faulted THEN r.strict \in {"ok", "Io", "StreamNotFullyConsumed"}
                           ELSE r.strict = Strict)
      [] st = "any" -> r.err \notin {"PANIC", "CRASH", "HANG"}
      [] OTHER      -> ~r.ok /\ r.err = st /\ r.fr /\ r.strict = st
(* used to show that traces are really consumed *)
Alias == [i |-> i, st |-> st, pos |-> pos, toks |-> toks]
=============================================================================
