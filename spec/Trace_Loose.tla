---------------------------- MODULE Trace_Loose ----------------------------
(* Validates recorded executions of the real layout driven reader. *)
EXTENDS Layout, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == \E j \in 1..Len(Trace) : i = j /\ LInit(Trace[j].rule, Trace[j].in, TRUE)
Next == LReader /\ UNCHANGED i
Spec == Init /\ [][Next]_<< lvars, i >>
r == Trace[i]
Conforms ==
  st # "run" =>
    CASE st = "ok"     -> r.ok /\ r.toks = toks /\ r.n = pos /\ r.re = Enc(toks)
      [] st = "any"    -> r.err \notin {"PANIC", "CRASH", "HANG"}
      [] st = "reject" -> ~r.ok /\ r.err \notin {"PANIC", "CRASH", "HANG"}
      [] OTHER         -> ~r.ok /\ r.err = st
Alias == [i |-> i, st |-> st, pos |-> pos, toks |-> toks]
=============================================================================
