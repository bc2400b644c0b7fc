------------------------------- MODULE Events -------------------------------
(***************************************************************************)
(* How an instance is built of the tree of a script: every token name has  *)
(* a list of events, an event is a function of the root of the token that  *)
(* may trigger the events of a name below it.                              *)
(*                                                                         *)
(*   events = [name -> Seq([k, a, b, unless])]                             *)
(*   value  = [k |-> "nil"], [k |-> "text", v], [k |-> "bool", v],         *)
(*            [k |-> "pair", a, b], [k |-> "list", l]                      *)
(*   answer = [ok: BOOLEAN, l: Seq(value), calls: Seq(text)]               *)
(* An answer that is ok has at least one value; the calls are the events   *)
(* that were called, in order, those that failed included.                 *)
(***************************************************************************)
EXTENDS RootTree

Nil == [k |-> "nil"]
Fail(calls) == [ok |-> FALSE, l |-> <<>>, calls |-> calls]
Give(v, calls) == [ok |-> TRUE, l |-> <<v>>, calls |-> calls]
\* a list of one value is that value
Value(l) == IF Len(l) = 1 THEN l[1] ELSE [k |-> "list", l |-> l]
\* no result is made of nothing
Real(x) == IF x.ok /\ (x.l = <<>> \/ x.l = <<Nil>>) THEN Fail(x.calls) ELSE x

\* what a name stands for below the nodes, in the order of Scan
RECURSIVE Below(_, _), BelowNames(_, _, _), BelowContainers(_, _)
Nowhere == [found |-> FALSE, l |-> <<>>]
BelowContainers(cs, name) ==
  IF cs = <<>> THEN Nowhere
  ELSE LET x == IF "root" \in DOMAIN cs[1] THEN Below(cs[1].root.nodes, name) ELSE Nowhere
       IN IF x.found THEN x ELSE BelowContainers(Tail(cs), name)
BelowNames(nodes, names, name) ==
  IF names = <<>> THEN Nowhere
  ELSE LET x == BelowContainers(nodes[names[1]].l, name)
       IN IF x.found THEN x ELSE BelowNames(nodes, Tail(names), name)
Below(nodes, name) ==
  IF name \in DOMAIN nodes THEN [found |-> TRUE, l |-> nodes[name].l]
  ELSE BelowNames(nodes, SortSeq(SetToSeq(DOMAIN nodes), Before), name)

RECURSIVE Dispatch(_, _, _), Try(_, _, _, _), Event(_, _, _), Trigger(_, _, _), Each(_, _, _)
\* the events of the name of a root: the first that doesn't fail answers
Dispatch(events, name, root) ==
  IF name \notin DOMAIN events THEN Fail(<<>>) ELSE Try(events, name, 1, root)
Try(events, name, i, root) ==
  IF i > Len(events[name]) THEN Fail(<<>>)
  ELSE LET x == TLCEval(Event(events, events[name][i], root))
           calls == <<name \o "." \o ToString(i - 1) \o ":" \o root.c>> \o x.calls
       IN IF x.ok THEN [x EXCEPT !.calls = calls]
          ELSE LET y == Try(events, name, i + 1, root) IN [y EXCEPT !.calls = calls \o @]
Event(events, ev, root) ==
  IF ev.unless # "" /\ root.c # "" /\ SubSeq(root.c, 1, 1) = ev.unless THEN Fail(<<>>)
  ELSE CASE ev.k = "fail" -> Fail(<<>>)
         [] ev.k = "text" -> Give([k |-> "text", v |-> root.c], <<>>)
         [] ev.k = "label" -> Give([k |-> "text", v |-> ev.a], <<>>)
         [] ev.k = "nil" -> Give(Nil, <<>>)
         [] ev.k = "trigger" -> Trigger(events, ev.a, root)
         [] ev.k = "first" -> LET x == TLCEval(Trigger(events, ev.a, root)) IN IF x.ok THEN Give(x.l[1], x.calls) ELSE x
         [] ev.k = "list" -> LET x == TLCEval(Trigger(events, ev.a, root)) IN IF x.ok THEN Give([k |-> "list", l |-> x.l], x.calls) ELSE x
         [] ev.k = "single" -> LET x == TLCEval(Trigger(events, ev.a, root)) IN IF x.ok THEN Give([k |-> "bool", v |-> Len(x.l) = 1], x.calls) ELSE x
         [] ev.k = "pair" ->
              LET x == TLCEval(Trigger(events, ev.a, root)) IN
              IF ~x.ok THEN x
              ELSE LET y == TLCEval(Trigger(events, ev.b, root))
                   IN IF y.ok THEN Give([k |-> "pair", a |-> x.l[1], b |-> y.l[1]], x.calls \o y.calls)
                      ELSE Fail(x.calls \o y.calls)
         [] ev.k = "either" ->
              LET x == TLCEval(Trigger(events, ev.a, root)) IN
              IF x.ok THEN x ELSE LET y == Trigger(events, ev.b, root) IN [y EXCEPT !.calls = x.calls \o @]
\* the values of the elements of a name below the root, in order
Trigger(events, name, root) ==
  LET w == Below(root.nodes, name)
  IN IF ~w.found THEN Fail(<<>>) ELSE Each(events, name, w.l)
\* ... all of them or none
Each(events, name, cs) ==
  LET One(c) == IF "root" \in DOMAIN c THEN Dispatch(events, name, c.root) ELSE Give([k |-> "text", v |-> c.c], <<>>)
      Fold[j \in 0..Len(cs)] ==
        IF j = 0 THEN [ok |-> TRUE, l |-> <<>>, calls |-> <<>>]
        ELSE IF ~Fold[j-1].ok THEN Fold[j-1]
        ELSE LET x == TLCEval(One(cs[j]))
             IN IF ~x.ok THEN Fail(Fold[j-1].calls \o x.calls)
                ELSE [ok |-> TRUE, l |-> Append(Fold[j-1].l, Value(x.l)), calls |-> Fold[j-1].calls \o x.calls]
  IN LET all == TLCEval(Fold[Len(cs)]) IN IF all.ok /\ all.l = <<>> THEN Fail(all.calls) ELSE all

Execute(events, root) == Real(Dispatch(events, root.n, root))

-----------------------------------------------------------------------------
(* what the real code shows of an answer                                   *)
Shown(x) ==
  IF ~x.ok THEN [k |-> "error", calls |-> x.calls]
  ELSE [k |-> "result", first |-> x.l[1], list |-> [k |-> "list", l |-> x.l], single |-> Len(x.l) = 1, calls |-> x.calls]
ShownInstance(x) == IF ~x.ok THEN [k |-> "error", calls |-> x.calls] ELSE [k |-> "value", first |-> x.l[1], calls |-> x.calls]

(* laws: the order of the events of a name is the order of preference, and *)
(* an event that fails changes nothing but the calls                       *)
Result(x) == [ok |-> x.ok, l |-> x.l]
Failing == [k |-> "fail", a |-> "", b |-> "", unless |-> ""]
Padded(events) == [n \in DOMAIN events |-> <<Failing>> \o events[n]]
Longer(events) == [n \in DOMAIN events |-> IF \E j \in DOMAIN events[n] : events[n][j].k \in {"text", "label"} /\ events[n][j].unless = "" THEN events[n] \o <<[Failing EXCEPT !.k = "label", !.a = "late"]>> ELSE events[n]]
Laws(events, root) ==
  /\ Result(Execute(Padded(events), root)) = Result(Execute(events, root))
  /\ Execute(Longer(events), root) = Execute(events, root)
=============================================================================
