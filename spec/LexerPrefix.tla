----------------------------- MODULE LexerPrefix -----------------------------
(* Scripts whose prefix is legal.                                           *)
EXTENDS Lexer, Json, IOUtils

Grammars == ndJsonDeserialize(IOEnv.GRAMMARS)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 8

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
Next == i + Stride <= Len(Trace) /\ i' = i + Stride

RECURSIVE IndexOf(_, _, _)
IndexOf(s, c, k) == IF k >= Len(s) THEN -1 ELSE IF StartsWith(Drop(s, k), c) THEN k ELSE IndexOf(s, c, k + 1)

\* the root token has a single line that begins with a constant, exactly once
Anchor(g) ==
  LET t == g.tok[g.root] IN
  IF Len(t.must) = 1 /\ t.not = <<>> /\ DOMAIN g.chan = {}
  THEN LET ins == t.must[1][1] IN
       IF ins.k = "r" /\ ins.min = 1 /\ ins.max = 1 /\ g.rule[ins.n].k = "c" THEN g.rule[ins.n].c ELSE ""
  ELSE ""

Why(g, s, o) ==
  LET whole == Outcome(g, s) IN
  IF whole.v = "ok" THEN (IF o = whole THEN "" ELSE "it matches from its start, but the answer is not that match")
  ELSE IF o.v = "ok" THEN (IF o \in OutcomesWithPrefix(g, s) THEN "" ELSE "the answer is not a match of what follows a prefix")
  ELSE LET k == IF Anchor(g) = "" THEN -1 ELSE IndexOf(s, Anchor(g), 0) IN
       IF k > 0 /\ Outcome(g, Drop(s, k)).v = "ok" THEN "its prefix has not been skipped" ELSE ""

Check ==
  LET e == Trace[i]
      g == Grammars[e.g + 1]
      why == Why(g, e.s, e.o)
  IN IF why = "" THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, why |-> why, x |-> SetToSeq(OutcomesWithPrefix(g, e.s))]))
=============================================================================
