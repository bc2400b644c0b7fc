------------------------------ MODULE LexerTree ------------------------------
(* The trees that the code answered: they contain every character of the    *)
(* text they match, in order, and only what their grammar declares; and they *)
(* are the trees of the specification.                                      *)
EXTENDS Lexer, Json, IOUtils

Grammars == ndJsonDeserialize(IOEnv.GRAMMARS)
Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 8

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
Next == i + Stride <= Len(Trace) /\ i' = i + Stride

RECURSIVE Leaves(_)
Leaves(ms) == IF ms = <<>> THEN ""
              ELSE LET h == ms[1] IN
                   (IF "r" \in DOMAIN h THEN h.c
                    ELSE LET F[j \in 0..Len(h.m)] == IF j = 0 THEN "" ELSE F[j-1] \o Leaves(h.m[j].m) IN F[Len(h.m)])
                   \o Leaves(Tail(ms))

\* the nodes follow the elements of their line, in order; the nodes of the channels may precede each of them
RECURSIVE Follows(_, _, _, _), Declared(_, _)
Follows(g, ms, line, k) ==
  IF ms = <<>> THEN TRUE
  ELSE LET h == ms[1]
           name == IF "r" \in DOMAIN h THEN h.r ELSE h.t
           next == {j \in k..Len(line) : line[j].k # "sw" /\ line[j].n = name}
       IN \/ \E j \in next : Follows(g, Tail(ms), line, j + 1)
          \/ g.co # <<>> /\ Follows(g, Tail(ms), line, k)
Declared(g, node) ==
  /\ node.n \in DOMAIN g.tok
  /\ node.l + 1 \in DOMAIN g.tok[node.n].must
  /\ Follows(g, node.m, g.tok[node.n].must[node.l + 1], 1)
  /\ \A j \in 1..Len(node.m) : IF "t" \in DOMAIN node.m[j]
        THEN /\ Len(node.m[j].m) > 0
             /\ \A q \in 1..Len(node.m[j].m) : node.m[j].m[q].n = node.m[j].t /\ (node.m[j].t \in DOMAIN g.tok => Declared(g, node.m[j].m[q]))
        ELSE node.m[j].c # "" /\ node.m[j].r \in DOMAIN g.rule

Check ==
  LET e == Trace[i]
      g == IF e.root = "" THEN Grammars[e.g + 1] ELSE [Grammars[e.g + 1] EXCEPT !.root = e.root]
      o == e.o
      why == IF Leaves(o.t.m) # o.d THEN "its leaves are not the matched text"
             ELSE IF ~StartsWith(e.s, o.d) THEN "the matched text does not start the script"
             ELSE IF o.t.n # g.root THEN "its root is another token"
             ELSE IF ~Declared(g, o.t) THEN "it is not a tree of the grammar"
             ELSE LET x == Outcome(g, e.s) IN IF x.v = "ok" /\ x.d = o.d /\ x.t # o.t THEN "it is not the tree of the matched text" ELSE ""
  IN IF why = "" THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> i, why |-> why, x |-> Outcome(g, e.s)]))
=============================================================================
