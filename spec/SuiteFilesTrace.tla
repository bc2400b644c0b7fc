--------------------------- MODULE SuiteFilesTrace ---------------------------
(* The suites of grammars that are made of several files: those of the tokens *)
(* of the first file, whose lines are scripts of the whole grammar.            *)
EXTENDS References, Json, IOUtils

Libraries == ndJsonDeserialize(IOEnv.LIBRARIES)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 8

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
Next == i + Stride <= Len(Trace) /\ i' = i + Stride

Suites(g, tests) ==
  [j \in 1..Len(tests) |->
     [n |-> tests[j].n,
      l |-> [k \in 1..Len(tests[j].l) |->
               [i |-> k - 1, ok |-> IsOK(Token(g, "tok", Q("top", tests[j].n), {}, tests[j].l[k], TRUE, Guards(g)))]]]]

Check ==
  LET e == Trace[i]
      lib == Libraries[e.g + 1]
      x == TLCEval(Suites(TLCEval(Merge(lib)), e.tests))
  IN /\ Assert(~Refused(lib), "the generator makes libraries with a meaning")
     /\ IF e.o = x THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, why |-> "the suites differ", x |-> x]))
=============================================================================
