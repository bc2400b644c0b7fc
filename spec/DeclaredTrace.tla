---------------------------- MODULE DeclaredTrace ----------------------------
(* What the real code says about sources (q is "source": o.tokens, o.path)   *)
(* and about heads (q is "head").                                            *)
EXTENDS Declared, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Stride == 8

VARIABLE i
Init == i \in 1..(IF Len(Trace) < Stride THEN Len(Trace) ELSE Stride)
Next == i + Stride <= Len(Trace) /\ i' = i + Stride

Bad(what, x) == PrintT("BAD " \o ToJson([i |-> i, x |-> x, why |-> what]))

Check ==
  LET e == Trace[i] IN
  IF e.q = "head" THEN LET x == Links(e.head) IN (e.o = x) \/ Bad("links", x)
  ELSE LET t == Tokens(e.src)
           p == Path(e.src)
       IN CASE e.o.tokens # t -> Bad("tokens", t)
            [] e.o.path # p -> Bad("path", p)
            [] p.v = "ok" /\ ~Faithful(TokensIn(e.src.toks), e.o.path.e, {}) -> Bad("path", p)
            [] OTHER -> TRUE
=============================================================================
