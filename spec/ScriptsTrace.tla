---------------------------- MODULE ScriptsTrace ----------------------------
(* Validates the instances that the real code built of scripts.              *)
(* [kind "built", p: program, text: what p is written as, bits, o: answer]   *)
(* [kind "any", d: the text that was read, fits, o: answer]                  *)
(* o = [v: "ok" | "refused" | "mistake", whole: BOOLEAN, ins: program]       *)
EXTENDS Scripts, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 8

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
Next == i + Stride <= Len(Trace) /\ i' = i + Stride

\* the known defect: a boolean that is a whole assignable is read as the variable of its name
RECURSIVE Forgiven(_)
ForgivenAll(l) == [j \in DOMAIN l |-> Forgiven(l[j])]
Forgiven(x) ==
  CASE x.k = "var" /\ x.name \in {"true", "false"} -> [k |-> "value", v |-> Bool(x.name = "true")]
    [] x.k = "of" -> [x EXCEPT !.of = ForgivenAll(@)]
    [] x.k = "slice" -> [x EXCEPT !.l = Forgiven(@)]
    [] x.k = "append" -> [x EXCEPT !.l = Forgiven(@), !.e = Forgiven(@)]
    [] x.k = "extract" -> [x EXCEPT !.l = Forgiven(@)]
    [] x.k = "fetch" -> [x EXCEPT !.l = Forgiven(@)]
    [] OTHER -> x
RECURSIVE ForgivenIns(_)
ForgivenIns(l) == [j \in DOMAIN l |->
  CASE l[j].k = "assign" -> [l[j] EXCEPT !.of = ForgivenAll(@)]
    [] l[j].k = "calllog" -> [l[j] EXCEPT !.log = Forgiven(@)]
    [] l[j].k = "if" -> [l[j] EXCEPT !.ins = ForgivenIns(@)]
    [] l[j].k = "for" -> [l[j] EXCEPT !.over = Forgiven(@), !.ins = ForgivenIns(@)]
    [] OTHER -> l[j]]
Forgiving(m) == [m EXCEPT !.ins = ForgivenIns(@)]

WhyBuilt(e) ==
  IF Assert(Squeezed(Written(e.p)) = e.text, <<"the generator writes something else", e>>) /\ ~AllFit(e.p, e.bits)
  THEN (IF e.o.v = "refused" THEN "" ELSE "a number that doesn't fit is accepted")
  ELSE IF e.o.v # "ok" THEN "a program is refused"
  ELSE IF ~e.o.whole THEN "a part of the program is lost"
  ELSE LET x == TLCEval(Meaning(e.p))
           y == TLCEval(Meaning(e.o.ins))
       IN IF x = y THEN ""
          ELSE IF Forgiving(x) = Forgiving(y) THEN "KNOWN"
          ELSE "the instance says something else"

WhyAny(e) ==
  IF e.o.v = "refused" /\ e.fits THEN "a text of the grammar has no instance"
  ELSE IF e.o.v = "ok" /\ Squeezed(Written(e.o.ins)) # e.d THEN "the instance says something else than the text that was read"
  ELSE ""

Check ==
  LET e == Trace[i]
      why == IF e.kind = "built" THEN WhyBuilt(e) ELSE WhyAny(e)
  IN IF why = "" THEN TRUE
     ELSE PrintT("BAD " \o ToJson([i |-> i, why |-> why, x |-> IF e.kind = "built" THEN Meaning(e.p) ELSE [text |-> e.d]]))
=============================================================================
