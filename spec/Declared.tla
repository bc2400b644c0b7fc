------------------------------ MODULE Declared ------------------------------
(***************************************************************************)
(* What the application says about the files of a grammar, without any     *)
(* script: its tokens, the path of its root token, and the links of a file *)
(* to the files that it includes.  See Loading for what a source is; here, *)
(* every token also has tests, the lines of its suite.                     *)
(***************************************************************************)
EXTENDS Loading

\* the channels are not read
Core(src) == [src EXCEPT !.chans = <<>>]

\* the tokens, in their order, with their lines, their bounds and their suites
TokensRefused(src) == Reasons(Core(src)) \ {"token", "root", "alone"} # {}
Tokens(src) ==
  IF TokensRefused(src) THEN [v |-> "error"]
  ELSE [v |-> "ok",
        l |-> Each(src.toks, LAMBDA t : [n |-> t.n, must |-> LinesIn(t.must), not |-> LinesIn(t.not), tests |-> t.tests]),
        f |-> Each(src.toks, LAMBDA t : t.n),
        m |-> TRUE]

\* the element of a token: its lines, in which the tokens are their own elements, or their name when they are inside
\* of themselves
RECURSIVE Unfolded(_, _, _)
Unfolded(toks, n, inside) ==
  LET One(i) == IF i.k # "t" THEN i
                ELSE IF i.n \in inside THEN [k |-> "rec", n |-> i.n, sp |-> i.sp, min |-> i.min, max |-> i.max]
                ELSE [k |-> "t", e |-> Unfolded(toks, i.n, inside \cup {i.n}), sp |-> i.sp, min |-> i.min, max |-> i.max]
      All(ls) == [j \in 1..Len(ls) |-> [k \in 1..Len(ls[j]) |-> One(ls[j][k])]]
  IN [n |-> n, must |-> All(toks[n].must), not |-> All(toks[n].not)]

\* the path of the root: its element, and the elements of all the tokens
Path(src) ==
  IF Refused(Core(src)) THEN [v |-> "error"]
  ELSE LET toks == TLCEval(TokensIn(src.toks)) IN
       [v |-> "ok", e |-> Unfolded(toks, src.root, {}), d |-> [n \in DOMAIN toks |-> Unfolded(toks, n, {})]]

\* every element of a path says what its token says, and every name it stops at is a token that it is inside of
RECURSIVE Faithful(_, _, _)
Faithful(toks, e, inside) ==
  LET Name(i) == IF i.k = "t" THEN i.e.n ELSE i.n
      Same(i, j) == IF j.k = "sw" THEN i.k = "sw"
                    ELSE i.k # "sw" /\ Name(i) = j.n /\ i.min = j.min /\ i.max = j.max /\ (i.k = "r") = (j.k = "r") /\ (j.k = "t" => i.sp = j.sp)
      Lines(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Len(a[j]) = Len(b[j]) /\ \A k \in 1..Len(a[j]) :
                       /\ Same(a[j][k], b[j][k])
                       /\ a[j][k].k = "rec" => a[j][k].n \in inside
                       /\ a[j][k].k = "t" => a[j][k].e.n \notin inside /\ Faithful(toks, a[j][k].e, inside \cup {a[j][k].e.n})
  IN Lines(e.must, toks[e.n].must) /\ Lines(e.not, toks[e.n].not)

-----------------------------------------------------------------------------
(* Links: a head is a sequence of [k: "include", n, paths: Seq(text)],      *)
(* [k: "reference", l, f, t] and [k: "replace", l, f, t]: the token t of    *)
(* the include f, known as or replaced by the local l.                      *)
Kind(head, k) == SelectSeq(head, LAMBDA x : x.k = k)
Includes(head) == Kind(head, "include")
LinksRefused(head) ==
  \/ \E x \in Elems(Includes(head)) : Len(x.paths) < 2 \/ Len(x.paths) > 3
  \/ \E x \in Elems(head) : x.k # "include" /\ x.f \notin Names(Includes(head))
LinksOf(head, k) ==
  Each(Kind(head, k), LAMBDA x : LET i == Of(Includes(head), x.f) IN [l |-> x.l, t |-> x.t, f |-> x.f, r |-> i.paths[1], k |-> i.paths[2]])
Links(head) ==
  IF LinksRefused(head) THEN [v |-> "error"]
  ELSE [v |-> "ok", refs |-> LinksOf(head, "reference"), reps |-> LinksOf(head, "replace"), found |-> TRUE]
=============================================================================
