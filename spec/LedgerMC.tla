------------------------------ MODULE LedgerMC ------------------------------
(* Exhaustive universes of the builders: on top of a world of instances,    *)
(* every assignment of candidate values to the fields of every kind, and    *)
(* every short history of the builder of every kind (values set, the        *)
(* builder created again). TLC verifies that identities are injective and   *)
(* prints what every history must answer: it is replayed in the real code.  *)
EXTENDS Ledger, Json, IOUtils, SequencesExt

\* prelude: steps that build the world; cand: for every kind its fields and their values; depth: of the histories
World == TLCEval(JsonDeserialize(IOEnv.WORLD))
Mode == IOEnv.MODE
RECURSIVE Run(_, _, _)
Run(st, ops, k) == IF k > Len(ops) THEN st ELSE Run(Step(st, ops[k]), ops, k + 1)
Built == TLCEval(Run(Start, World.prelude, 1))
Es == Built.es
Cand(kind) == (CHOOSE j \in 1..Len(World.cand) : World.cand[j].kind = kind)
CandOf(kind) == World.cand[Cand(kind)]

VARIABLES kind, hist, st, n
vars == <<kind, hist, st, n>>
Slot == 1 + Len(World.prelude) + n

Init == /\ kind \in {World.cand[j].kind : j \in 1..Len(World.cand)}
        /\ hist = <<>> /\ n = 0
        /\ st = [bs |-> <<[kind |-> kind, cfg |-> CandOf(kind).cfg, f |-> Empty]>>, es |-> Es]
Fields == CandOf(kind).fields
\* the assignments: the fields in their order, each of them set to a candidate or not at all
Assign == \E v \in 0..Len(Fields[n + 1].v) :
            /\ n < Len(Fields)
            /\ n' = n + 1
            /\ UNCHANGED kind
            /\ hist' = Append(hist, v)
            /\ st' = IF v = 0 THEN st ELSE Step(st, [op |-> "set", b |-> 1, f |-> Fields[n + 1].f, v |-> Fields[n + 1].v[v]])
\* the histories: a value set or another builder created; an instance is built after each of them
Cur == Len(st.bs)
Built1(s, b, slot) == Step(s, [op |-> "now", b |-> b, e |-> slot])
Act(s2, h) == /\ n' = n + 1 /\ UNCHANGED kind
              /\ hist' = Append(hist, h \o <<IF Answer(s2, [op |-> "now", b |-> h[1], e |-> Slot]) = "ok" THEN 1 ELSE 0>>)
              /\ st' = Built1(s2, h[1], Slot)
History == /\ n < World.depth
           /\ \/ \E b \in 1..Cur, j \in 1..Len(Fields) : \E v \in 1..Len(Fields[j].v) :
                   Act(Step(st, [op |-> "set", b |-> b, f |-> Fields[j].f, v |-> Fields[j].v[v]]), <<b, j, v>>)
              \/ Cur < 2 /\ \E b \in 1..Cur : Act(Step(st, [op |-> "create", b |-> b]), <<b, 0, 0>>)
Next == IF Mode = "assign" THEN (n < Len(Fields) /\ Assign) ELSE History

B == st.bs[1]
Emit == \/ Mode # "assign" \/ n < Len(Fields)
        \/ LET ok == Answer(st, [op |-> "now", b |-> 1, e |-> Slot]) = "ok"
           IN PrintT("CASE " \o ToJson([kind |-> kind, h |-> hist, ok |-> ok,
                      id |-> IF ok THEN Term(kind, Effective(kind, B.cfg, B.f), st.es) ELSE ""]))
EmitHistory == \/ Mode = "assign" \/ n < World.depth
               \/ PrintT("HIST " \o ToJson([kind |-> kind, h |-> hist]))

-----------------------------------------------------------------------------
(* the specification itself: the instances that a history built *)
Mine == {x \in DOMAIN st.es : x > Len(World.prelude) /\ st.es[x].kind = kind}
Norm(v) == IF "s" \in DOMAIN v THEN [s |-> v.s, n |-> v.n] ELSE v
\* with the values of an instance, a builder builds the same instance
Rebuilt == \A x \in Mine : kind # "peer" =>
             /\ Valid(kind, CandOf(kind).cfg, st.es[x].f, st.es)
             /\ Effective(kind, CandOf(kind).cfg, st.es[x].f) = st.es[x].f
\* identities are injective, and only omit what is not hashed
TimeSame(t, a, b) == a.s = b.s /\ (t = "nano" => a.n = b.n)
SameValue(t, a, b) == CASE t \in {"nano", "sec"} -> TimeSame(t, a, b)
                        [] t \in {"ref", "nested"} -> st.es[a].id = st.es[b].id
                        [] t \in {"refs", "nestedlist"} -> Len(a) = Len(b) /\ \A j \in 1..Len(a) : st.es[a[j]].id = st.es[b[j]].id
                        [] t = "lits" -> Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
                        [] OTHER -> a = b
SameValues(a, b) == \A j \in 1..Len(FieldTable[kind]) :
                      LET f == FieldTable[kind][j] IN /\ (f.n \in DOMAIN a) = (f.n \in DOMAIN b)
                                                      /\ f.n \in DOMAIN a => SameValue(f.t, a[f.n], b[f.n])
Injective == \A x, y \in Mine : (st.es[x].id = st.es[y].id) = SameValues(st.es[x].f, st.es[y].f)
\* building never depends on the other builders
Sound == Emit /\ EmitHistory /\ Injective /\ Rebuilt
=============================================================================
