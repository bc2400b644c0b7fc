------------------------------ MODULE RootTree ------------------------------
(***************************************************************************)
(* The tree that the parsers of a language read: the nodes of a syntax     *)
(* tree grouped by name, and the search of a name in it.                   *)
(*   root      = [n: name, c: text, nodes: [name -> node]]                 *)
(*   node      = [n: name, c: text, l: Seq(container)]                     *)
(*   container = [n: name, c: text] (a rule), with root: root (a token)    *)
(***************************************************************************)
EXTENDS Lexer

NameOf(h) == IF "r" \in DOMAIN h THEN h.r ELSE h.t

RECURSIVE TextOf(_)
\* the text under a sequence of matches
TextOf(ms) ==
  LET One(h) == IF "r" \in DOMAIN h THEN h.c
                ELSE LET F[j \in 0..Len(h.m)] == IF j = 0 THEN "" ELSE F[j-1] \o TextOf(h.m[j].m) IN F[Len(h.m)]
      G[j \in 0..Len(ms)] == IF j = 0 THEN "" ELSE G[j-1] \o One(ms[j])
  IN G[Len(ms)]

RECURSIVE RootOf(_), ContainersOf(_, _)
\* the containers of a name, in the order of the text
ContainersOf(ms, name) ==
  IF ms = <<>> THEN <<>>
  ELSE (IF NameOf(ms[1]) # name THEN <<>>
        ELSE IF "r" \in DOMAIN ms[1] THEN << [n |-> name, c |-> ms[1].c] >>
        ELSE TLCEval([j \in 1..Len(ms[1].m) |-> [n |-> name, c |-> TextOf(ms[1].m[j].m), root |-> RootOf(ms[1].m[j])]]))
       \o ContainersOf(Tail(ms), name)

Joined(cs) == LET F[j \in 0..Len(cs)] == IF j = 0 THEN "" ELSE F[j-1] \o cs[j].c IN F[Len(cs)]

RootOf(t) ==
  [n |-> t.n, c |-> TextOf(t.m),
   nodes |-> TLCEval([name \in {NameOf(t.m[j]) : j \in 1..Len(t.m)} |->
                LET cs == TLCEval(ContainersOf(t.m, name)) IN [n |-> name, c |-> Joined(cs), l |-> cs]])]

-----------------------------------------------------------------------------
(* the search of a name: the root itself, then its own nodes, then the     *)
(* nodes of its containers, in the order of the names of the nodes and of  *)
(* the containers of each                                                  *)
Letters == "ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz"
Rank(c) == CHOOSE k \in 1..Len(Letters) : CharAt(Letters, k) = c
RECURSIVE Before(_, _)
Before(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                ELSE IF CharAt(a, 1) = CharAt(b, 1) THEN Before(Drop(a, 1), Drop(b, 1))
                ELSE Rank(CharAt(a, 1)) < Rank(CharAt(b, 1))

Nothing == [k |-> "error"]
RECURSIVE ScanNodes(_, _), ScanNames(_, _, _), ScanContainers(_, _)
ScanContainers(cs, name) ==
  IF cs = <<>> THEN Nothing
  ELSE LET x == IF "root" \in DOMAIN cs[1] THEN ScanNodes(cs[1].root.nodes, name) ELSE Nothing
       IN IF x # Nothing THEN x ELSE ScanContainers(Tail(cs), name)
ScanNames(nodes, names, name) ==
  IF names = <<>> THEN Nothing
  ELSE LET x == ScanContainers(nodes[names[1]].l, name)
       IN IF x # Nothing THEN x ELSE ScanNames(nodes, Tail(names), name)
ScanNodes(nodes, name) ==
  IF name \in DOMAIN nodes THEN [k |-> "node", n |-> name, c |-> nodes[name].c, content |-> ""]
  ELSE ScanNames(nodes, SortSeq(SetToSeq(DOMAIN nodes), Before), name)
Scan(root, name) ==
  IF root.n = name THEN [k |-> "root", n |-> name, c |-> root.c, content |-> ""] ELSE ScanNodes(root.nodes, name)

RECURSIVE NamesIn(_)
NamesIn(root) ==
  {root.n} \cup DOMAIN root.nodes \cup
  UNION {UNION {IF "root" \in DOMAIN root.nodes[x].l[j] THEN NamesIn(root.nodes[x].l[j].root) ELSE {} : j \in 1..Len(root.nodes[x].l)} : x \in DOMAIN root.nodes}

\* every character of the text is in exactly one of the nodes, at every level
RECURSIVE Conserves(_)
Conserves(root) ==
  LET names == SetToSeq(DOMAIN root.nodes)
      Sum[j \in 0..Len(names)] == IF j = 0 THEN 0 ELSE Sum[j-1] + Len(root.nodes[names[j]].c)
  IN /\ Sum[Len(names)] = Len(root.c)
     /\ \A x \in DOMAIN root.nodes : \A j \in 1..Len(root.nodes[x].l) :
          "root" \in DOMAIN root.nodes[x].l[j] => /\ root.nodes[x].l[j].root.c = root.nodes[x].l[j].c
                                                  /\ root.nodes[x].l[j].root.n = x
                                                  /\ Conserves(root.nodes[x].l[j].root)
=============================================================================
