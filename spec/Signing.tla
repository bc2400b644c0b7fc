------------------------------ MODULE Signing -------------------------------
(* Signatures and ring signatures, symbolically: keys, and the parts of the *)
(* signatures (points and scalars), are terms that nobody guesses. A state  *)
(* holds the objects made so far (obj: slot -> object), what was signed     *)
(* (gen), and the text of every term (txt).                                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Nothing == [x \in {} |-> 0]
Start == [obj |-> Nothing, gen |-> {}, txt |-> Nothing]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

T(name, a, b) == name \o ToString(a) \o "." \o ToString(b)
Unknown == "?"

\* the identity of the key of a slot
Id(st, slot) == st.obj[slot].id
Ids(st, slots) == [j \in 1..Len(slots) |-> Id(st, slots[j])]
In(x, s) == \E j \in 1..Len(s) : s[j] = x

\* the key that a signature recovers for a message: 0 is none of the known keys, -1 isn't specified
Recovered(st, o, m) ==
  LET exact == {g \in st.gen : g.t = "sig" /\ g.r = o.r /\ g.s = o.s}
      rs == {g \in st.gen : g.t = "sig" /\ g.r = o.r}
      ss == {g \in st.gen : g.t = "sig" /\ g.s = o.s}
  IN IF exact # {} THEN LET g == CHOOSE g \in exact : TRUE IN IF g.msg = m THEN g.key ELSE 0
     ELSE IF \E a \in rs, b \in ss : a.key = b.key /\ a.msg = b.msg THEN -1
     ELSE 0
\* a ring signature verifies a message if and only if one of the ring made it for that message. Its members and their
\* scalars close a circle, which closes as well when it is run through several times
Repeats(s, t) == Len(t) > 0 /\ Len(s) % Len(t) = 0 /\ Len(s) > 0 /\ \A j \in 1..Len(s) : s[j] = t[((j - 1) % Len(t)) + 1]
Made_by(g, o) == g.t = "rsig" /\ Len(o.ring) = Len(o.ss) /\ Repeats(o.ring, g.ring) /\ Repeats(o.ss, g.ss) /\ g.e = o.e
Verifies(st, o, m) == \E g \in st.gen : Made_by(g, o) /\ g.msg = m
Genuine(st, o) == \E g \in st.gen : IF o.t = "sig" THEN g.t = "sig" /\ g.r = o.r /\ g.s = o.s
                                    ELSE g.t = "rsig" /\ g.ring = o.ring /\ g.ss = o.ss /\ g.e = o.e
\* the hashes of exactly the keys of the ring, in its order (0: another hash)
Checks(st, o, m, hs) == Verifies(st, o, m) /\ Len(hs) = Len(o.ring) /\ \A j \in 1..Len(hs) : hs[j] # 0 /\ Id(st, hs[j]) = o.ring[j]

\* the terms of an object
Scalar(st, p) == IF p.x \notin DOMAIN st.obj THEN Unknown
                 ELSE IF st.obj[p.x].t = "sig" THEN st.obj[p.x].s ELSE st.obj[p.x].ss[p.p]
NewSig(op) == [t |-> "sig", r |-> T("r", op.e, 0), s |-> T("s", op.e, 0)]
NewRing(st, op) == [t |-> "rsig", ring |-> Ids(st, op.ring), ss |-> [j \in 1..Len(op.ring) |-> T("s", op.e, j)], e |-> T("e", op.e, 0)]
Made(st, op) ==
  CASE op.op = "key" -> [t |-> "key", id |-> op.e]
    [] op.op \in {"keytext", "sigtext", "rtext"} -> st.obj[op.x]
    [] op.op = "pubtext" -> [t |-> "pub", id |-> Id(st, op.x)]
    [] op.op = "sign" -> NewSig(op)
    [] op.op = "assemble" -> [t |-> "sig", r |-> IF op.r \in DOMAIN st.obj THEN st.obj[op.r].r ELSE Unknown, s |-> Scalar(st, [x |-> op.s, p |-> 0])]
    [] op.op = "rsign" -> NewRing(st, op)
    [] op.op = "rassemble" -> [t |-> "rsig", ring |-> Ids(st, op.ring), ss |-> [j \in 1..Len(op.ss) |-> Scalar(st, op.ss[j])],
                               e |-> IF op.ei \in DOMAIN st.obj THEN st.obj[op.ei].e ELSE Unknown]
Makes == {"key", "keytext", "pubtext", "sign", "sigtext", "assemble", "rsign", "rtext", "rassemble"}
\* may an operation succeed, may it be refused
MaySucceed(st, op) == op.op = "rsign" => In(Id(st, op.k), Ids(st, op.ring))
MayFail(st, op) == CASE op.op \in {"assemble", "rassemble"} -> ~Genuine(st, Made(st, op))
                     [] op.op = "rsign" -> ~MaySucceed(st, op)
                     [] OTHER -> FALSE
Signed(st, op) == CASE op.op = "sign" -> {[t |-> "sig", r |-> T("r", op.e, 0), s |-> T("s", op.e, 0), key |-> Id(st, op.k), msg |-> op.m]}
                    [] op.op = "rsign" -> LET o == NewRing(st, op)
                                          IN {[t |-> "rsig", ring |-> o.ring, ss |-> o.ss, e |-> o.e, key |-> Id(st, op.k), msg |-> op.m]}
                    [] OTHER -> {}
Step(st, op) == IF op.op \in Makes THEN [st EXCEPT !.obj = Put(@, op.e, Made(st, op)), !.gen = @ \cup Signed(st, op)] ELSE st

-----------------------------------------------------------------------------
(* texts: what can be read. A text is base64 or not (b), and holds sections *)
(* of elements: "scalar", "point", "empty" or "bad"                         *)
AllOf(s, kinds) == \A j \in 1..Len(s) : s[j] \in kinds
Readable(kind, d) ==
  CASE kind \in {"key", "pub"} -> Len(d.sections) = 1 /\ d.sections[1] = << IF kind = "key" THEN "scalar" ELSE "point" >>
    [] kind = "sig" -> d.b /\ Len(d.sections) = 2 /\ d.sections[1] = <<"point">> /\ d.sections[2] = <<"scalar">>
    [] kind = "rsig" -> d.b /\ Len(d.sections) = 3 /\ AllOf(d.sections[1], {"point", "empty"}) /\ AllOf(d.sections[2], {"scalar", "empty"}) /\ d.sections[3] = <<"scalar">>
=============================================================================
