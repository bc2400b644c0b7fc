------------------------------ MODULE RootTrace ------------------------------
(* Validates the root trees recorded from the real code, and the searches of *)
(* every name of each (and of an unknown name).                              *)
EXTENDS RootTree, Json, IOUtils

Grammars == ndJsonDeserialize(IOEnv.GRAMMARS)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 8

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
Next == i + Stride <= Len(Trace) /\ i' = i + Stride

Expected(e) == IF e.p THEN OutcomesWithPrefix(Grammars[e.g + 1], e.s) ELSE {Outcome(Grammars[e.g + 1], e.s)}

Why(e) ==
  LET x == Expected(e) IN
  IF e.o.v = "mistake" THEN (IF \E o \in x : o.v = "mistake" THEN "" ELSE "it has no tree")
  ELSE LET fits == {o \in x : o.v = "ok" /\ o.d = e.o.d} IN
    IF fits = {} THEN "it has another text than the match"
    ELSE LET r == TLCEval(RootOf((CHOOSE o \in fits : TRUE).t)) IN
      IF e.o.root # r THEN "it is not the tree of the match"
      ELSE IF ~Conserves(e.o.root) THEN "it loses or repeats text"
      ELSE IF DOMAIN e.o.scan # NamesIn(r) \cup {"unknownName"} THEN "it has other names"
      ELSE IF \E j \in 1..Len(e.o.subs) : LET u == e.o.subs[j] IN
                 DOMAIN u.scan # NamesIn(u.root) \cup {"unknownName"} \/ \E n \in DOMAIN u.scan : u.scan[n] # Scan(u.root, n)
           THEN "the search of a name in a part of the tree answers another element"
      ELSE IF \E n \in DOMAIN e.o.scan : e.o.scan[n] # Scan(r, n) THEN "the search of a name answers another element"
      ELSE ""

Check ==
  LET e == Trace[i]
      why == Why(e)
  IN IF why = "" THEN TRUE
     ELSE PrintT("BAD " \o ToJson([i |-> i, why |-> why, x |-> SetToSeq({IF o.v = "ok" THEN [v |-> "ok", root |-> RootOf(o.t)] ELSE o : o \in Expected(e)})]))
=============================================================================
