------------------------------ MODULE Loading ------------------------------
(***************************************************************************)
(* What the files of a grammar mean.  A source is what they declare, in    *)
(* the order of the files:                                                 *)
(*   groups: Seq([n, o: Seq(text)])            options of a group          *)
(*   series: Seq([n, g: Seq(name)])            the groups of a serie       *)
(*   pats:   Seq([n, c: Seq([rev, s])])        the series of a pattern     *)
(*   rules:  Seq([n, k: "c", c: text] or [n, k: "p", p: Seq(name), card])  *)
(*   toks, chans: Seq([n, must: Seq(Line), not: Seq(Line), loose])         *)
(*     (loose: a block misses the colon that begins it)                    *)
(*   a Line is a sequence of [k: "sw"], [k: "r", n, card] and              *)
(*     [k: "t", n, card, sp: Seq([k: "r" or "t", n, card])]                *)
(*     (the channels refer to tokens of toks)                              *)
(*   root: the name of the root token                                      *)
(* card is the text of a cardinality, "" when there is none.               *)
(* A source is refused, or means a grammar (see Lexer).                    *)
(***************************************************************************)
EXTENDS Lexer
CR == INSTANCE Cards

Elems(q) == {q[j] : j \in 1..Len(q)}
Names(q) == {q[j].n : j \in 1..Len(q)}
Of(q, n) == q[CHOOSE j \in 1..Len(q) : q[j].n = n]
Distinct(q) == Cardinality(Names(q)) = Len(q)

LinesOf(t) == Elems(t.must) \cup Elems(t.not)
Instructions(t) == UNION {Elems(l) : l \in LinesOf(t)}
Elements(src) == UNION {Instructions(t) : t \in Elems(src.toks) \cup Elems(src.chans)}
Specifiers(src) == UNION {IF e.k = "t" THEN Elems(e.sp) ELSE {} : e \in Elements(src)}

BadCard(text) == CR!Read(text).k = "bad"
IsOpen(text) == CR!Read(text).k = "open"

\* a line that is nothing but the token it belongs to
Alone(t) == \E l \in LinesOf(t) : LET es == SelectSeq(l, LAMBDA e : e.k # "sw") IN Len(es) = 1 /\ es[1].k = "t" /\ es[1].n = t.n

Reasons(src) ==
  {r \in {"group", "serie", "pattern", "rule", "token", "root", "twice", "alone", "card", "empty", "loose"} :
    CASE r = "group" -> \E s \in Elems(src.series) : ~(Elems(s.g) \subseteq Names(src.groups))
      [] r = "serie" -> \E p \in Elems(src.pats) : \E c \in Elems(p.c) : c.s \notin Names(src.series)
      [] r = "pattern" -> \E u \in Elems(src.rules) : u.k = "p" /\ ~(Elems(u.p) \subseteq Names(src.pats))
      [] r = "rule" -> \/ \E e \in Elements(src) : e.k = "r" /\ e.n \notin Names(src.rules)
                       \/ \E s \in Specifiers(src) : s.k = "r" /\ s.n \notin Names(src.rules)
      [] r = "token" -> \/ \E e \in UNION {Instructions(t) : t \in Elems(src.toks)} : e.k = "t" /\ e.n \notin Names(src.toks)
                        \/ \E e \in UNION {Instructions(t) : t \in Elems(src.chans)} : e.k = "t" /\ e.n \notin Names(src.toks)
      [] r = "root" -> src.root \notin Names(src.toks)
      [] r = "twice" -> ~Distinct(src.rules) \/ ~Distinct(src.toks) \/ ~Distinct(src.chans)
      [] r = "alone" -> \E t \in Elems(src.toks) : Alone(t)
      [] r = "card" -> \/ \E u \in Elems(src.rules) : u.k = "p" /\ BadCard(u.card)
                       \/ \E e \in Elements(src) : e.k # "sw" /\ e.card # "" /\ BadCard(e.card)
                       \/ \E s \in Specifiers(src) : BadCard(s.card)
      [] r = "empty" -> \E t \in Elems(src.toks) \cup Elems(src.chans) : \E l \in LinesOf(t) : l = <<>>
      [] r = "loose" -> \E t \in Elems(src.toks) \cup Elems(src.chans) : t.loose}
Refused(src) == Reasons(src) # {}

-----------------------------------------------------------------------------
CardOf(text) == IF text = "" THEN [min |-> 1, max |-> 1] ELSE LET c == CR!Read(text) IN [min |-> c.min, max |-> c.max]
Each(q, Op(_)) == [j \in 1..Len(q) |-> Op(q[j])]

Instruction(e) ==
  IF e.k = "sw" THEN e
  ELSE IF e.k = "r" THEN [k |-> "r", n |-> e.n] @@ CardOf(e.card)
  ELSE [k |-> "t", n |-> e.n, sp |-> Each(e.sp, LAMBDA s : [n |-> s.n] @@ CardOf(s.card))] @@ CardOf(e.card)
LinesIn(ls) == Each(ls, LAMBDA l : Each(l, Instruction))
TokensIn(q) == [n \in Names(q) |-> [must |-> LinesIn(Of(q, n).must), not |-> LinesIn(Of(q, n).not)]]
RuleIn(u) == IF u.k = "c" THEN [k |-> "c", c |-> u.c] ELSE [k |-> "p", p |-> u.p] @@ CardOf(u.card)

Load(src) ==
  [pat |-> [n \in Names(src.pats) |->
              Each(Of(src.pats, n).c, LAMBDA c : [rev |-> c.rev, grp |-> Each(Of(src.series, c.s).g, LAMBDA x : Of(src.groups, x).o)])],
   rule |-> [n \in Names(src.rules) |-> RuleIn(Of(src.rules, n))],
   tok |-> TokensIn(src.toks), chan |-> TokensIn(src.chans),
   co |-> SortSeq(SetToSeq(Names(src.chans)), StrLess), root |-> src.root]

Answer(src, s) == IF Refused(src) THEN [v |-> "error"] ELSE Outcome(Load(src), s)

\* the order of the declarations has no meaning
Reversed(src) == [src EXCEPT !.groups = Reverse(@), !.series = Reverse(@), !.pats = Reverse(@), !.rules = Reverse(@), !.toks = Reverse(@), !.chans = Reverse(@)]
=============================================================================
