----------------------------- MODULE EventsTrace ----------------------------
(* Validates the instances that the real code built of recorded trees.       *)
EXTENDS Events, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 8

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
Next == i + Stride <= Len(Trace) /\ i' = i + Stride

Evs(e) == IF e.names = <<>> THEN <<>> ELSE [n \in {e.names[j] : j \in DOMAIN e.names} |-> e.events[n]]

\* nothing is built without an event
Why(e) ==
  IF e.names = <<>> THEN (IF e.run.v = "none" /\ e.run.instance.k = "error" THEN "" ELSE "something is built without any event")
  ELSE IF e.run.v # "ok" THEN "the events are refused"
  ELSE
  LET root == e.tree
      evs == Evs(e)
      x == TLCEval(Execute(evs, root))
  IN IF e.run.execute # Shown(x) THEN "the root has another result"
     ELSE IF e.run.again # Shown(x) THEN "the root has another result the second time"
     ELSE IF e.run.instance # ShownInstance(x) THEN "the application builds another instance"
     ELSE IF DOMAIN e.run.triggers # (NamesIn(root) \cup {"unknownName"}) THEN "the tree has other names"
     ELSE LET wrong == {n \in DOMAIN e.run.triggers : e.run.triggers[n] # Shown(TLCEval(Trigger(evs, n, root)))}
          IN IF wrong # {} THEN "a triggered name has another result: " \o (CHOOSE n \in wrong : TRUE)
             ELSE IF Assert(Laws(evs, root), <<"a law of the specification fails", e>>) THEN "" ELSE ""

Check ==
  LET e == Trace[i]
      why == Why(e)
  IN IF why = "" THEN TRUE
     ELSE PrintT("BAD " \o ToJson([i |-> i, why |-> why, x |->
       IF e.names = <<>> THEN Nil ELSE [execute |-> Shown(Execute(Evs(e), e.tree)),
         triggers |-> [n \in DOMAIN e.run.triggers |-> Shown(Trigger(Evs(e), n, e.tree))]]]))
=============================================================================
