---------------------------- MODULE Trace_Write ----------------------------
(* Validates recorded executions of the real writer against Wire!Enc: what   *)
(* reached the underlying writer is exactly the encoding when the call       *)
(* succeeded, and a prefix of it when the underlying writer failed; it may   *)
(* fail only if the underlying writer did.                                   *)
EXTENDS Wire, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, done
Init == i \in 1..Len(Trace) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ i' = i
Spec == Init /\ [][Next]_<< i, done >>
r == Trace[i]
Prefix(a, b) == Len(a) <= Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
Conforms == done => IF r.hard THEN ~r.ok /\ Prefix(r.out, Enc(r.toks)) /\ r.err = "Io"
                    ELSE r.ok /\ r.out = Enc(r.toks)
Alias == [i |-> i, expected |-> IF done THEN Enc(r.toks) ELSE << >>]
=============================================================================
