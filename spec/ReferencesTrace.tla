--------------------------- MODULE ReferencesTrace ---------------------------
(* Scripts executed by the real code with grammars made of several files. *)
EXTENDS References, Json, IOUtils

Libraries == ndJsonDeserialize(IOEnv.LIBRARIES)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 8

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
Next == i + Stride <= Len(Trace) /\ i' = i + Stride

Check ==
  LET e == Trace[i]
      x == LibraryOutcome(Libraries[e.g + 1], e.s)
  IN IF e.o = x THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, x |-> x]))
=============================================================================
