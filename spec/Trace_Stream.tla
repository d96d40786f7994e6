---------------------------- MODULE Trace_Stream ----------------------------
(* Validates values read one after the other through a single reader: the    *)
(* whole session is one behaviour of the typed reader over the tuple of the  *)
(* types asked for.                                                          *)
EXTENDS BinProt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == \E j \in 1..Len(Trace) : i = j /\ RInit(Trace[j].ty, Trace[j].in, TRUE)
Next == Reader /\ UNCHANGED i
Spec == Init /\ [][Next]_<< rvars, i >>
r == Trace[i]
Conforms ==
  st # "run" =>
    CASE st = "ok"  -> r.ok /\ r.toks = toks /\ r.n = pos
      [] st = "any" -> r.err \notin {"PANIC", "CRASH", "HANG"}
      [] OTHER      -> ~r.ok /\ r.err = st
Alias == [i |-> i, st |-> st, pos |-> pos, toks |-> toks]
=============================================================================
