------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The matching semantics of the grammars of steve: groups, series,        *)
(* patterns, rules, tokens, lines, alternatives, cardinalities, specifiers,*)
(* channels, channel switches and recursion.                               *)
(*                                                                         *)
(* A grammar is a record (as read from JSON):                              *)
(*   pat  : [name -> Seq([rev: BOOLEAN, grp: Seq(Seq(STRING))])]           *)
(*   rule : [NAME -> [k: "c", c: STRING] or                                *)
(*                   [k: "p", p: Seq(name), min: Nat, max: Int]]           *)
(*   tok  : [name -> [must: Seq(Line), not: Seq(Line)]]                    *)
(*   chan : same as tok, the channels (text skipped between the elements);  *)
(*          the tokens that their lines refer to are those of tok           *)
(*   co   : the names of the channels, sorted                              *)
(*   root : the name of the root token                                     *)
(* A Line is a sequence of instructions                                    *)
(*   [k: "sw"]                                 toggles the channels        *)
(*   [k: "r", n, min, max]                     a rule                      *)
(*   [k: "t", n, min, max, sp: Seq([n, min, max])]  a token, specifiers    *)
(* max = -1 means unbounded.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CharAt(s, i) == SubSeq(s, i, i)
StartsWith(s, o) == Len(o) <= Len(s) /\ SubSeq(s, 1, Len(o)) = o
Drop(s, k) == IF k = 0 THEN s ELSE SubSeq(s, k + 1, Len(s))
Take(s, k) == SubSeq(s, 1, k)
Max2(a, b) == IF a >= b THEN a ELSE b

CardOK(min, max, n) == n >= min /\ (max = -1 \/ n <= max)

-----------------------------------------------------------------------------
(* Groups, series and patterns: lengths matched at the start of s. *)

\* the longest option of the group that starts s, 0 when there is none
RECURSIVE GroupLenFrom(_, _, _)
GroupLenFrom(grp, s, i) ==
  IF i > Len(grp) THEN 0
  ELSE Max2(IF StartsWith(s, grp[i]) THEN Len(grp[i]) ELSE 0, GroupLenFrom(grp, s, i + 1))
GroupLen(grp, s) == GroupLenFrom(grp, s, 1)

\* the groups of a serie one after the other: -1 when one of them doesn't match
RECURSIVE SerieLenFrom(_, _, _)
SerieLenFrom(ser, s, i) ==
  IF i > Len(ser) THEN 0
  ELSE LET k == GroupLen(ser[i], s) IN
       IF k = 0 THEN -1
       ELSE LET r == SerieLenFrom(ser, Drop(s, k), i + 1) IN IF r = -1 THEN -1 ELSE k + r
SerieLen(ser, s) == SerieLenFrom(ser, s, 1)

\* a reversed serie matches the text that precedes the serie (or all of it)
RECURSIVE BeforeSerie(_, _)
BeforeSerie(ser, s) ==
  IF s = "" THEN 0
  ELSE IF SerieLen(ser, s) # -1 THEN 0
  ELSE 1 + BeforeSerie(ser, Drop(s, 1))

\* the choices are matched in order and the pattern stops at the first one that doesn't match
RECURSIVE PatLenFrom(_, _, _)
PatLenFrom(pat, s, i) ==
  IF i > Len(pat) THEN 0
  ELSE IF pat[i].rev
       THEN LET k == BeforeSerie(pat[i].grp, s) IN k + PatLenFrom(pat, Drop(s, k), i + 1)
       ELSE LET k == SerieLen(pat[i].grp, s) IN
            IF k = -1 THEN 0 ELSE k + PatLenFrom(pat, Drop(s, k), i + 1)
PatLen(g, p, s) == PatLenFrom(g.pat[p], s, 1)

\* the first of the patterns that matches
RECURSIVE PatsLenFrom(_, _, _, _)
PatsLenFrom(g, ps, s, i) ==
  IF i > Len(ps) THEN 0
  ELSE LET k == PatLen(g, ps[i], s) IN IF k > 0 THEN k ELSE PatsLenFrom(g, ps, s, i + 1)

RECURSIVE RepPats(_, _, _, _, _)
RepPats(g, ps, s, max, n) ==
  IF s = "" \/ (max # -1 /\ n >= max) THEN <<0, n>>
  ELSE LET k == PatsLenFrom(g, ps, s, 1) IN
       IF k = 0 THEN <<0, n>>
       ELSE LET r == RepPats(g, ps, Drop(s, k), max, n + 1) IN <<k + r[1], r[2]>>

\* one occurrence of a rule at the start of s: its length, 0 when there is none
RuleLen(g, name, s) ==
  LET r == g.rule[name] IN
  IF r.k = "c" THEN (IF StartsWith(s, r.c) THEN Len(r.c) ELSE 0)
  ELSE LET x == RepPats(g, r.p, s, r.max, 0) IN
       IF x[2] > 0 /\ CardOK(r.min, r.max, x[2]) THEN x[1] ELSE 0

\* the occurrences of a rule, up to max: <<length, amount>>
RECURSIVE RepRule(_, _, _, _, _)
RepRule(g, name, s, max, n) ==
  IF s = "" THEN <<0, n>>
  ELSE LET k == RuleLen(g, name, s) IN
       IF k = 0 THEN <<0, n>>
       ELSE IF max # -1 /\ n + 1 >= max THEN <<k, n + 1>>
       ELSE LET r == RepRule(g, name, Drop(s, k), max, n + 1) IN <<k + r[1], r[2]>>

-----------------------------------------------------------------------------
(* Matches.  A match is NoMatch (the element is not there), Invalid, or a  *)
(* valid record: d = the text, ms = the nodes of the tree, cn = how many   *)
(* occurrences of each direct container it counts, for the specifiers.     *)

NoMatch == [k |-> "none"]
Invalid == [k |-> "bad"]
Valid(d, ms, cn) == [k |-> "ok", d |-> d, ms |-> ms, cn |-> cn]
IsOK(m) == m.k = "ok"

RuleNode(name, text) == [r |-> name, c |-> text]
TokenNode(name, ts) == [t |-> name, m |-> ts]

Count(cn, name) ==
  LET F[i \in 0..Len(cn)] == IF i = 0 THEN 0 ELSE F[i-1] + (IF cn[i][1] = name THEN cn[i][2] ELSE 0)
  IN F[Len(cn)]

RuleMatch(g, ins, s) ==
  LET x == RepRule(g, ins.n, s, ins.max, 0) IN
  IF CardOK(ins.min, ins.max, x[2])
  THEN Valid(Take(s, x[1]),
             IF x[2] = 0 THEN <<>> ELSE << RuleNode(ins.n, Take(s, x[1])) >>,
             << <<ins.n, x[2]>> >>)
  ELSE IF CardOK(ins.min, ins.max, 0) THEN Valid("", <<>>, <<>>)   \* skipped
  ELSE Invalid

\* the channels are tried in the order of their names: g.co lists them and
\* must be sorted (WellFormed)
Alphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
Ord(c) == CHOOSE i \in 1..Len(Alphabet) : CharAt(Alphabet, i) = c
RECURSIVE StrLess(_, _)
StrLess(a, b) ==
  IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
  ELSE IF CharAt(a, 1) = CharAt(b, 1) THEN StrLess(Drop(a, 1), Drop(b, 1))
  ELSE Ord(CharAt(a, 1)) < Ord(CharAt(b, 1))
WellFormed(g) ==
  /\ {g.co[i] : i \in 1..Len(g.co)} = DOMAIN g.chan
  /\ \A i \in 1..(Len(g.co) - 1) : StrLess(g.co[i], g.co[i+1])

RECURSIVE Token(_, _, _, _, _, _, _), BestLine(_, _, _, _, _, _, _, _), LineFrom(_, _, _, _, _, _, _, _, _),
          Container(_, _, _, _, _, _, _), Element(_, _, _, _, _, _, _), RepToken(_, _, _, _, _, _, _, _),
          Channel(_, _, _, _)

(* ns is "tok" or "chan"; st are the names of the tokens under expansion   *)
(* (a reference to one of them is recursive); ch: channels are active;     *)
(* gd: for each token, the text at which it is being evaluated recursively,*)
(*     and for each channel, the text at which it is being evaluated       *)
NameSpace(g, ns) == IF ns = "tok" THEN g.tok ELSE g.chan

\* the token name at the start of s: Invalid, or valid with its node
Token(g, ns, name, st, s, ch, gd) ==
  LET tk == NameSpace(g, ns)[name]
      must == BestLine(g, ns, tk.must, st, s, ch, gd, [i |-> 1, best |-> NoMatch, l |-> 0])
  IN IF ~IsOK(must.best) THEN Invalid
     ELSE IF Len(tk.not) > 0 /\ IsOK(BestLine(g, ns, tk.not, st, s, ch, gd, [i |-> 1, best |-> NoMatch, l |-> 0]).best) THEN Invalid
     ELSE [must.best EXCEPT !.ms = << [n |-> name, l |-> must.l, m |-> must.best.ms] >>]

\* the valid alternative with the longest text, the first one on ties
BestLine(g, ns, lines, st, s, ch, gd, acc) ==
  IF acc.i > Len(lines) THEN acc
  ELSE LET m == LineFrom(g, ns, lines[acc.i], st, s, ch, gd, 1, [ch |-> ch, nx |-> ch, d |-> "", ms |-> <<>>, cn |-> <<>>, n |-> 0])
           better == IsOK(m) /\ Len(m.d) > (IF IsOK(acc.best) THEN Len(acc.best.d) ELSE 0)
       IN BestLine(g, ns, lines, st, s, ch, gd,
                   IF better THEN [i |-> acc.i + 1, best |-> m, l |-> acc.i - 1] ELSE [acc EXCEPT !.i = acc.i + 1])

LineFrom(g, ns, line, st, s, ch0, gd, i, acc) ==
  IF i > Len(line) THEN (IF acc.n = 0 THEN NoMatch ELSE Valid(acc.d, acc.ms, acc.cn))
  ELSE LET ins == line[i] IN
    IF ins.k = "sw"
    THEN LineFrom(g, ns, line, st, s, ch0, gd, i + 1, [acc EXCEPT !.nx = ~acc.nx, !.ch = (~acc.nx) \/ acc.ch])
    ELSE LET m == Container(g, ns, ins, st, s, acc.ch, [gd |-> gd, nx |-> acc.nx]) IN
      IF m.k = "none"
      THEN IF CardOK(ins.min, ins.max, 0) THEN LineFrom(g, ns, line, st, s, ch0, gd, i + 1, acc) ELSE NoMatch
      ELSE IF m.k = "bad" THEN Invalid
      ELSE LineFrom(g, ns, line, st, Drop(s, Len(m.d)), ch0, gd, i + 1,
             [acc EXCEPT !.d = acc.d \o m.d, !.ms = acc.ms \o m.ms, !.cn = acc.cn \o m.cn, !.n = acc.n + 1,
                         !.ch = IF acc.nx THEN acc.ch ELSE FALSE])

\* one element of a line, after the channels that precede it
Container(g, ns, ins, st, s, ch, x) ==
  IF s = "" THEN (IF CardOK(ins.min, ins.max, 0) THEN NoMatch ELSE Invalid)
  ELSE LET c == IF ch THEN Channel(g, g.co, s, x.gd) ELSE NoMatch IN
       IF ~IsOK(c) THEN Element(g, ns, ins, st, s, x.nx, x.gd)
       ELSE LET after == Container(g, ns, ins, st, Drop(s, Len(c.d)), TRUE, x) IN
            IF after.k = "none" THEN Element(g, ns, ins, st, s, x.nx, x.gd)
            ELSE IF after.k = "bad" THEN Invalid
            ELSE Valid(c.d \o after.d, c.ms \o after.ms, after.cn)

\* the first channel that matches; the channels are not active at the start of a
\* channel, and a channel is not evaluated where it is already being evaluated
Channel(g, names, s, gd) ==
  IF names = <<>> THEN NoMatch
  ELSE IF gd["#" \o names[1]] = <<s>> THEN Channel(g, Tail(names), s, gd)
  ELSE LET m == Token(g, "chan", names[1], {}, s, FALSE, [gd EXCEPT !["#" \o names[1]] = <<s>>]) IN
       IF IsOK(m) THEN Valid(m.d, m.ms[1].m, <<>>) ELSE Channel(g, Tail(names), s, gd)

Element(g, ns, ins, st, s, ch, gd) ==
  IF ins.k = "r" THEN RuleMatch(g, ins, s)
  ELSE LET rec == ins.n \in st IN
    IF rec /\ gd[ins.n] = <<s>> THEN NoMatch      \* already evaluating it here
    ELSE LET st2 == IF rec THEN {} ELSE st \cup {ins.n}
             gd2 == IF rec THEN [gd EXCEPT ![ins.n] = <<s>>] ELSE gd
             r == RepToken(g, ns, ins, st2, s, ch, gd2, [d |-> "", ts |-> <<>>, cn |-> <<>>])
             n == Len(r.ts)
             ok == /\ CardOK(ins.min, ins.max, n)
                   /\ \A j \in 1..Len(ins.sp): CardOK(ins.sp[j].min, ins.sp[j].max, Count(r.cn, ins.sp[j].n))
         IN IF ok THEN Valid(r.d, IF n = 0 THEN <<>> ELSE << TokenNode(ins.n, r.ts) >>, << <<ins.n, n>> >>)
            ELSE IF CardOK(ins.min, ins.max, 0) THEN Valid("", <<>>, <<>>)   \* skipped
            ELSE Invalid

RepToken(g, ns, ins, st, s, ch, gd, acc) ==
  LET m == Token(g, "tok", ins.n, st, s, ch, gd) IN       \* channels refer to tokens as well
  IF ~IsOK(m) THEN acc
  ELSE LET a == [d |-> acc.d \o m.d, ts |-> acc.ts \o m.ms, cn |-> acc.cn \o m.cn] IN
       IF ins.max # -1 /\ Len(a.ts) >= ins.max THEN a
       ELSE RepToken(g, ns, ins, st, Drop(s, Len(m.d)), ch, gd, a)

Guards(g) == [n \in (DOMAIN g.tok) \cup {"#" \o c : c \in DOMAIN g.chan} |-> <<>>]

\* the verdict on a script without prefix: Invalid, or the tree of the root token
Parse(g, s) == Token(g, "tok", g.root, {}, s, TRUE, Guards(g))

\* the projection that the conformance checks compare
Outcome(g, s) ==
  LET m == Parse(g, s) IN
  IF IsOK(m) THEN [v |-> "ok", d |-> m.d, t |-> m.ms[1]] ELSE [v |-> "mistake"]

\* a prefix is only skipped when the script doesn't match from its start
OutcomesWithPrefix(g, s) ==
  LET o == Outcome(g, s) IN
  IF o.v = "ok" THEN {o}
  ELSE {o} \cup {x \in {Outcome(g, Drop(s, k)) : k \in 1..(Len(s) - 1)} : x.v = "ok"}
=============================================================================
