------------------------------ MODULE Mistakes ------------------------------
(* What a mistake may say about a script that the grammar g doesn't match:  *)
(* a requirement of the root token that the script doesn't meet, where it   *)
(* doesn't meet it.  A reason is a record                                   *)
(*   k  : "none"  no token matches (n: the token that requires it)          *)
(*        "card"  the element n is there a times, not min..max times        *)
(*        "spec"  the container n is there a times in the referenced token, *)
(*                not min..max times                                        *)
(*        "next"  the script ends where an element is mandatory: it could   *)
(*                begin with the constant or the pattern t                  *)
(*        "not"   the line a of the not block matches                       *)
(*        "prefix" the rule n is only there after the text t                *)
EXTENDS Lexer

Reason(k, n, a, mn, mx, t) == [k |-> k, n |-> n, a |-> a, min |-> mn, max |-> mx, t |-> t]

\* what an element can begin with: the first rules of its alternatives (where an alternative begins with a token
\* that leads back to itself, those of what follows it)
RuleStarts(g, name) ==
  LET r == g.rule[name] IN
  IF r.k = "c" THEN {"c:" \o r.c} ELSE {"p:" \o r.p[j] : j \in 1..Len(r.p)}

RECURSIVE Starts(_, _, _), LineStarts(_, _, _, _)
Starts(g, name, seen) ==
  IF name \in seen THEN {}
  ELSE UNION {LineStarts(g, g.tok[name].must[j], 1, seen \cup {name}) : j \in 1..Len(g.tok[name].must)}
LineStarts(g, line, j, seen) ==
  IF j > Len(line) THEN {}
  ELSE IF line[j].k = "sw" THEN LineStarts(g, line, j + 1, seen)
  ELSE IF line[j].k = "r"
       THEN RuleStarts(g, line[j].n) \cup (IF line[j].min = 0 THEN LineStarts(g, line, j + 1, seen) ELSE {})
       ELSE LET x == Starts(g, line[j].n, seen) IN
            x \cup (IF x = {} \/ line[j].min = 0 THEN LineStarts(g, line, j + 1, seen) ELSE {})

ElementStarts(g, ins) == IF ins.k = "r" THEN RuleStarts(g, ins.n) ELSE Starts(g, ins.n, {})

\* the reasons why an element doesn't match at the start of s
BlameElement(g, ins, s, ch, gd) ==
  IF ins.k = "r"
  THEN LET n == RepRule(g, ins.n, s, ins.max, 0)[2]
           later == IF g.rule[ins.n].k = "c" /\ n = 0 THEN {k \in 1..(Len(s) - 1) : RuleLen(g, ins.n, Drop(s, k)) > 0} ELSE {}
       IN {Reason("card", ins.n, n, ins.min, ins.max, "")}
          \cup (IF later = {} THEN {}
                ELSE IF CardOK(ins.min, ins.max, 1) THEN {Reason("prefix", ins.n, 0, 0, 0, Take(s, k)) : k \in later}
                \* one occurrence, after a prefix
                ELSE {Reason("card", ins.n, 1, ins.min, ins.max, "")})
  ELSE LET r == RepToken(g, "tok", ins, {ins.n}, s, ch, gd, [d |-> "", ts |-> <<>>, cn |-> <<>>])
           n == Len(r.ts)
       IN IF n = 0 THEN {Reason("none", g.root, 0, 0, 0, "")}
          ELSE IF ~CardOK(ins.min, ins.max, n) THEN {Reason("card", g.root, n, ins.min, ins.max, "")}
          ELSE {Reason("spec", ins.sp[j].n, Count(r.cn, ins.sp[j].n), ins.sp[j].min, ins.sp[j].max, "") :
                  j \in {q \in 1..Len(ins.sp) : ~CardOK(ins.sp[q].min, ins.sp[q].max, Count(r.cn, ins.sp[q].n))}}

RECURSIVE BlameContainer(_, _, _, _, _)
BlameContainer(g, ins, s, ch, x) ==
  IF s = "" THEN {Reason("next", "", 0, 0, 0, t) : t \in ElementStarts(g, ins)}
  ELSE LET c == IF ch THEN Channel(g, g.co, s, x.gd) ELSE NoMatch IN
       IF ~IsOK(c) THEN BlameElement(g, ins, s, x.nx, x.gd)
       ELSE LET after == Container(g, "tok", ins, {}, Drop(s, Len(c.d)), TRUE, x) IN
            IF after.k = "none" THEN BlameElement(g, ins, s, x.nx, x.gd)
            ELSE BlameContainer(g, ins, Drop(s, Len(c.d)), TRUE, x)

\* the first element of a line that doesn't match
RECURSIVE BlameLine(_, _, _, _, _)
BlameLine(g, line, s, i, acc) ==
  IF i > Len(line) THEN {}
  ELSE LET ins == line[i] IN
    IF ins.k = "sw"
    THEN BlameLine(g, line, s, i + 1, [acc EXCEPT !.nx = ~acc.nx, !.ch = (~acc.nx) \/ acc.ch])
    ELSE LET x == [gd |-> Guards(g), nx |-> acc.nx]
             m == Container(g, "tok", ins, {}, s, acc.ch, x) IN
      IF m.k = "none" THEN (IF CardOK(ins.min, ins.max, 0) THEN BlameLine(g, line, s, i + 1, acc) ELSE {})
      ELSE IF m.k = "bad" THEN BlameContainer(g, ins, s, acc.ch, x)
      ELSE BlameLine(g, line, Drop(s, Len(m.d)), i + 1, [acc EXCEPT !.ch = IF acc.nx THEN acc.ch ELSE FALSE])

Line(g, line, s) ==
  LineFrom(g, "tok", line, {}, s, TRUE, Guards(g), 1, [ch |-> TRUE, nx |-> TRUE, d |-> "", ms |-> <<>>, cn |-> <<>>, n |-> 0])
LineMatches(g, line, s) == LET m == Line(g, line, s) IN IsOK(m) /\ m.d # ""

\* the reasons why the root token doesn't match s; none when it matches
Reasons(g, s) ==
  LET tk == g.tok[g.root]
      not == {Reason("not", g.root, j - 1, 0, 0, "") : j \in {q \in 1..Len(tk.not) : LineMatches(g, tk.not[q], s)}}
      matches == \E j \in 1..Len(tk.must) : LineMatches(g, tk.must[j], s)
      must == IF matches THEN {} ELSE UNION {BlameLine(g, tk.must[j], s, 1, [ch |-> TRUE, nx |-> TRUE]) : j \in 1..Len(tk.must)}
  IN not \cup must \cup (IF ~matches /\ must = {} THEN {Reason("none", g.root, 0, 0, 0, "")} ELSE {})
=============================================================================
