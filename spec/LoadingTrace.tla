---------------------------- MODULE LoadingTrace ----------------------------
(* Validates what the real code made of the files of grammars: every line   *)
(* of TRACE is one script (s) given to the source number g, o the answer.   *)
EXTENDS Loading, Json, IOUtils

Sources == ndJsonDeserialize(IOEnv.SOURCES)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 8

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
Next == i + Stride <= Len(Trace) /\ i' = i + Stride

Check ==
  LET e == Trace[i]
      src == Sources[e.g + 1]
      x == Answer(src, e.s)
  IN IF e.o = x THEN TRUE
     ELSE PrintT("BAD " \o ToJson([i |-> i, x |-> x, why |-> ToString(Reasons(src))]))
=============================================================================
