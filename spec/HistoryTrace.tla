----------------------------- MODULE HistoryTrace -----------------------------
(* The steps of histories: the lexer, as a state machine, has no state that   *)
(* its answers can tell. Every line of TRACE is one step of a history, with   *)
(* what the code answered then (o, and its whole text said) and the whole     *)
(* text of its answer on the same step alone (alone). The answer must be one  *)
(* of the specification, and the same as alone, down to what a mistake says.  *)
EXTENDS Lexer, Json, IOUtils

Grammars == ndJsonDeserialize(IOEnv.GRAMMARS)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 8

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
Next == i + Stride <= Len(Trace) /\ i' = i + Stride

GrammarOf(e) == LET g == Grammars[e.g + 1] IN IF e.root = "" THEN g ELSE [g EXCEPT !.root = e.root]
Expected(e) == IF e.p THEN OutcomesWithPrefix(GrammarOf(e), e.s) ELSE {Outcome(GrammarOf(e), e.s)}

Why(e, x) == IF e.o \notin x THEN "the answer is not the one of the script"
             ELSE IF e.said # e.alone THEN "the answer is another one than without the steps before"
             ELSE ""

Check ==
  LET e == Trace[i]
      x == Expected(e)
      why == Why(e, x)
  IN IF why = "" THEN TRUE
     ELSE PrintT("BAD " \o ToJson([i |-> i, why |-> why, x |-> IF e.o \in x THEN <<[alone |-> e.alone]>> ELSE SetToSeq(x)]))
=============================================================================
