----------------------------- MODULE SuiteTrace -----------------------------
(* The test lines that a grammar declares beside its tokens: the suites that *)
(* the code answers have one line per declared line, in their order, and a   *)
(* line succeeds exactly when it is a script of its token.                   *)
EXTENDS Lexer, Json, IOUtils

Grammars == ndJsonDeserialize(IOEnv.GRAMMARS)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 8

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
Next == i + Stride <= Len(Trace) /\ i' = i + Stride

\* tests: Seq([n: token, l: Seq(text)]) in the order of the declarations
Suites(g, tests) ==
  [j \in 1..Len(tests) |->
     [n |-> tests[j].n,
      l |-> [k \in 1..Len(tests[j].l) |->
               [i |-> k - 1, ok |-> IsOK(Token(g, "tok", tests[j].n, {}, tests[j].l[k], TRUE, Guards(g)))]]]]

Check ==
  LET e == Trace[i]
      x == TLCEval(Suites(Grammars[e.g + 1], e.tests))
  IN IF e.o = x THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, why |-> "the suites differ", x |-> x]))
=============================================================================
