---------------------------- MODULE SigningTrace ----------------------------
(* Validates recorded uses of the real keys and signatures, step by step.   *)
EXTENDS Signing, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES i, k, st
vars == <<i, k, st>>
View == <<i, k>>

Bad(why) == PrintT("BAD " \o ToJson([i |-> i, k |-> k, why |-> why]))

\* the texts of terms: <<term, text>> pairs. Known terms keep their text, the text of a new one is new
Pairs(op, o, out) ==
  CASE op.op \in {"key", "keytext"} -> << <<T("x", o.id, 0), out.x>>, <<T("P", o.id, 0), out.p>> >>
    [] op.op = "pubtext" -> << <<T("P", o.id, 0), out.p>> >>
    [] o.t = "sig" -> << <<o.r, out.r>>, <<o.s, out.s>> >>
    [] o.t = "rsig" -> [j \in 1..Len(o.ring) |-> <<T("P", o.ring[j], 0), out.ring[j]>>] \o [j \in 1..Len(o.ss) |-> <<o.ss[j], out.ss[j]>>] \o << <<o.e, out.e>> >>
                       \o (IF op.op = "rsign" THEN [j \in 1..Len(out.rs) |-> <<T("R", op.e, j), out.rs[j]>>] ELSE <<>>)
SizesOk(o, out) == o.t = "rsig" => Len(out.ring) = Len(o.ring) /\ Len(out.ss) = Len(o.ss)
RECURSIVE Told(_, _, _)
Told(txt, ps, j) == IF j > Len(ps) THEN txt ELSE Told(IF ps[j][1] = Unknown THEN txt ELSE Put(txt, ps[j][1], ps[j][2]), ps, j + 1)
Wrong(txt, ps) == {j \in 1..Len(ps) : ps[j][1] \in DOMAIN txt /\ txt[ps[j][1]] # ps[j][2]}
\* two signatures of a message by a key are allowed to be the same, ring signatures are not
Clash(txt, ps, st2) == {j \in 1..Len(ps) : /\ ps[j][1] # Unknown /\ ps[j][1] \notin DOMAIN txt
                                           /\ \/ \E t \in DOMAIN txt : txt[t] = ps[j][2]
                                                 /\ ~\E g, h \in st2.gen : /\ g.t = "sig" /\ h.t = "sig" /\ g.key = h.key /\ g.msg = h.msg
                                                                          /\ \/ {g.r, h.r} = {t, ps[j][1]} \/ {g.s, h.s} = {t, ps[j][1]}
                                              \/ \E l \in 1..Len(ps) : l < j /\ ps[l][1] # ps[j][1] /\ ps[l][2] = ps[j][2]}

\* the text of the key that a signature recovers
Recovers(o, m, text) ==
  LET id == Recovered(st, o, m)
  IN CASE id = -1 -> TRUE
       [] id = 0 -> \A x \in DOMAIN st.obj : st.obj[x].t \in {"key", "pub"} => st.txt[T("P", st.obj[x].id, 0)] # text
       [] OTHER -> st.txt[T("P", id, 0)] = text
Equals(op, out) == {out.eq[j] : j \in 1..Len(out.eq)} = {x \in DOMAIN st.obj : st.obj[x].t \in {"key", "pub"} /\ st.obj[x].id = Id(st, op.x)}

\* why the answer of a step is wrong, or nothing
Verdict(op, out, st2) ==
  IF out.v = "odd" THEN "any: " \o out.msg
  ELSE CASE op.op \in Makes ->
              IF out.v = "ok" /\ ~MaySucceed(st, op) THEN "sign: a key that isn't in the ring signs"
              ELSE IF out.v = "error" /\ ~MayFail(st, op) THEN
                   (IF op.op \in {"sign", "rsign"} THEN "sign: a key can't sign" ELSE "text: a text that was written can't be read")
              ELSE IF out.v = "error" THEN ""
              ELSE LET o == Made(st, op)
                       ps == Pairs(op, o, out)
                       fresh == op.op \in {"key", "sign", "rsign"}
                   IN IF ~SizesOk(o, out) THEN "text: a ring signature has other sizes"
                      ELSE IF Wrong(st.txt, ps) # {} THEN "text: what was read isn't what was written"
                      ELSE IF fresh /\ Clash(st.txt, ps, st2) # {} THEN "fresh: a signature or a key reuses a secret value"
                      ELSE IF op.op = "pubtext" /\ ~Equals(op, out) THEN "text: a public key equals others than itself"
                      ELSE IF op.op \in {"sign", "sigtext"} /\ ~out.ver THEN "recover: a signature doesn't verify"
                      ELSE ""
         [] op.op = "recover" -> IF Recovers(st.obj[op.x], op.m, out.p) THEN "" ELSE "recover: a signature recovers the wrong key"
         [] op.op = "rverify" -> IF out.is = Verifies(st, st.obj[op.x], op.m) THEN ""
                                 ELSE IF out.is THEN "verify: a ring signature verifies what its ring didn't sign" ELSE "verify: a genuine ring signature is refused"
         [] op.op = "rcheck" -> IF out.is = Checks(st, st.obj[op.x], op.m, op.hs) THEN ""
                                ELSE IF out.is THEN "check: a ring signature is accepted for other keys or another message" ELSE "check: a genuine ring signature is refused for its keys"
         [] op.op = "read" -> IF (out.v = "ok") = Readable(op.kind, op.d) THEN "" ELSE "text: a text is " \o (IF out.v = "ok" THEN "read although it is malformed" ELSE "refused although it is well formed")

\* the steps that use what was refused are skipped
Init == i \in 1..Len(Rows) /\ k = 1 /\ st = Start
Next ==
  LET r == Rows[i] IN
  /\ UNCHANGED i
  /\ k <= Len(r.ops)
  /\ LET op == r.ops[k] out == r.outs[k] st2 == Step(st, op)
     IN IF out.v = "skipped" THEN k' = k + 1 /\ st' = st
        ELSE LET why == Verdict(op, out, st2)
             IN IF why # "" THEN Bad(why) /\ k' = Len(r.ops) + 2 /\ st' = st
                ELSE /\ k' = k + 1
                     /\ st' = IF op.op \in Makes /\ out.v = "ok" THEN [st2 EXCEPT !.txt = Told(@, Pairs(op, Made(st, op), out), 1)] ELSE st
=============================================================================
