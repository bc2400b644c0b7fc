----------------------------- MODULE LexerTrace -----------------------------
(* Validates executions recorded from the real code: every line of TRACE is *)
(* one script parsed with the grammar g (an index in GRAMMARS): s the       *)
(* script, p whether its prefix is legal, o what the code answered.         *)
EXTENDS Lexer, Json, IOUtils

Grammars == ndJsonDeserialize(IOEnv.GRAMMARS)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 8

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
Next == i + Stride <= Len(Trace) /\ i' = i + Stride

GrammarOf(e) == LET g == Grammars[e.g + 1] IN IF e.root = "" THEN g ELSE [g EXCEPT !.root = e.root]

\* with a legal prefix, the code may only skip a prefix when the whole doesn't match
Expected(e) == IF e.p THEN OutcomesWithPrefix(GrammarOf(e), e.s) ELSE {Outcome(GrammarOf(e), e.s)}

Check ==
  LET e == Trace[i]
      x == Expected(e)
  IN IF e.o \in x /\ WellFormed(Grammars[e.g + 1]) THEN TRUE
     ELSE PrintT("BAD " \o ToJson([i |-> i, x |-> SetToSeq(x)]))
=============================================================================
