--------------------------- MODULE MistakesTrace ---------------------------
(* The mistakes that the code answered: o is a reason of the specification, *)
(* and a script has reasons if and only if it has no tree.                  *)
EXTENDS Mistakes, Json, IOUtils

Grammars == ndJsonDeserialize(IOEnv.GRAMMARS)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 8

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
Next == i + Stride <= Len(Trace) /\ i' = i + Stride

Check ==
  LET e == Trace[i]
      g == Grammars[e.g + 1]
      x == Reasons(g, e.s)
      ok == /\ WellFormed(g)
            /\ (x = {}) <=> (Outcome(g, e.s).v = "ok")        \* the reasons agree with the verdict
            /\ e.o \in x
  IN IF ok THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, x |-> SetToSeq(x)]))
=============================================================================
