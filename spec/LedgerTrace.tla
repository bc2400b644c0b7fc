---------------------------- MODULE LedgerTrace -----------------------------
(* Validates recorded histories of the real builders, step by step. A row   *)
(* holds the steps (ops) and what the code answered (outs), and what the    *)
(* instances answered at the end (final).                                   *)
EXTENDS Ledger, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
\* the rows that say so start where the first one ends: with the instances of the world
RECURSIVE RunAll(_, _, _)
RunAll(s, ops, j) == IF j > Len(ops) THEN s ELSE RunAll(Step(s, ops[j]), ops, j + 1)
World == TLCEval(RunAll(Start, Rows[1].ops, 1))
RECURSIVE SeenAll(_, _)
SeenAll(s, j) == IF j > Len(Rows[1].ops) THEN s
                 ELSE SeenAll(IF Rows[1].outs[j].v = "ok" /\ Rows[1].ops[j].op = "now" THEN With(s, Rows[1].ops[j].e, Rows[1].outs[j].d) ELSE s, j + 1)
WorldSeen == TLCEval(SeenAll(Empty, 1))
VARIABLES i, k, st, seen
vars == <<i, k, st, seen>>
\* seen: what every instance answered when it was built

SameList(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
RECURSIVE Matches(_, _)
FieldMatches(t, v, o) ==
  CASE t = "lit" -> o = v
    [] t = "lits" -> SameList(o, v)
    [] t = "ref" -> o = seen[v].hash
    [] t = "refs" -> Len(o) = Len(v) /\ \A j \in 1..Len(v) : o[j] = seen[v[j]].hash
    [] t \in {"nano", "sec"} -> o.s = v.s /\ o.n = v.n
    [] t = "nested" -> Matches(st.es[v], o)
    [] t = "nestedlist" -> Len(o) = Len(v) /\ \A j \in 1..Len(v) : Matches(st.es[v[j]], o[j])
Matches(e, d) ==
  LET fs == FieldTable[e.kind]
  IN \A j \in 1..Len(fs) :
       /\ (fs[j].n \in DOMAIN e.f) <=> (fs[j].n \in DOMAIN d)
       /\ fs[j].n \in DOMAIN e.f => FieldMatches(fs[j].t, e.f[fs[j].n], d[fs[j].n])

\* the instances built before whose hashes contradict the identity of a new one
Contradictions(st2, slot, d) ==
  LET e == st2.es[slot]
  IN IF e.kind \in Hashless THEN {}
     ELSE {x \in DOMAIN st.es : st.es[x].kind = e.kind /\ (st.es[x].id = e.id) # (seen[x].hash = d.hash)}

Bad(why, at) == PrintT("BAD " \o ToJson([i |-> i, k |-> at, why |-> why]))

Init == /\ i \in 1..Len(Rows) /\ k = 1
        /\ IF Rows[i].after THEN st = World /\ seen = WorldSeen ELSE st = Start /\ seen = Empty
\* the position determines the rest of the state
View == <<i, k>>
Next ==
  LET r == Rows[i] IN
  /\ UNCHANGED i
  /\ k <= Len(r.ops)
  /\ LET op == r.ops[k]
         out == r.outs[k]
         st2 == Step(st, op)
     IN IF out.v # Answer(st, op)
        THEN /\ Bad("valid: a step answers " \o out.v \o ", expected " \o Answer(st, op), k)
             /\ k' = Len(r.ops) + 2 /\ UNCHANGED <<st, seen>>
        ELSE IF op.op = "now" /\ out.v = "ok"
        THEN IF ~Matches(st2.es[op.e], out.d)
             THEN /\ Bad("value: an instance doesn't answer the values it was built with", k)
                  /\ k' = Len(r.ops) + 2 /\ UNCHANGED <<st, seen>>
             ELSE LET c == Contradictions(st2, op.e, out.d) IN
                  IF c # {} THEN /\ Bad("hash: two " \o st2.es[op.e].kind \o " instances that are " \o
                                        (IF \E x \in c : seen[x].hash = out.d.hash THEN "different have the same hash" ELSE "the same have different hashes"), k)
                                 /\ k' = Len(r.ops) + 2 /\ UNCHANGED <<st, seen>>
                  ELSE /\ k' = k + 1 /\ st' = st2 /\ seen' = With(seen, op.e, out.d)
        ELSE IF op.op = "get" /\ out.v = "ok" /\ out.d # seen[op.e]
        THEN /\ Bad("stable: an instance changed after it was built", k)
             /\ k' = Len(r.ops) + 2 /\ UNCHANGED <<st, seen>>
        ELSE k' = k + 1 /\ st' = st2 /\ UNCHANGED seen
Final ==
  LET r == Rows[i] IN
  k = Len(r.ops) + 1 => \A j \in 1..Len(r.final) : \/ r.final[j].e \notin DOMAIN seen
                                                  \/ r.final[j].d = seen[r.final[j].e]
                                                  \/ Bad("stable: an instance changed after it was built", k)
=============================================================================
