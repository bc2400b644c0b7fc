---------------------------- MODULE CipherTrace -----------------------------
(* Validates recorded uses of the real encryptions, step by step.           *)
EXTENDS Cipher, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES i, k, st
View == <<i, k>>
Bad(why) == PrintT("BAD " \o ToJson([i |-> i, k |-> k, why |-> why]))

Verdict(op, out) ==
  IF out.v = "odd" THEN "any: " \o out.msg
  ELSE IF (out.v = "ok") # Succeeds(st, op)
       THEN (IF out.v = "ok" THEN "open: what should be refused is accepted" ELSE "open: what should be accepted is refused")
  ELSE IF out.v # "ok" THEN ""
  ELSE CASE op.op = "penc" -> IF out.len # op.n \/ ~out.kept THEN "open: the encrypted text has another length, or the message is modified"
                              ELSE IF out.clear THEN "fresh: an encrypted text contains its message"
                              ELSE IF out.iv \in st.texts THEN "fresh: an initialization vector is used twice" ELSE ""
         [] op.op = "renc" -> IF out.len # st.obj[op.k].bits \div 8 \/ ~out.kept THEN "open: the encrypted data has another length, or the message is modified"
                              ELSE IF out.clear \/ out.c \in st.texts THEN "fresh: the same message is encrypted twice to the same data" ELSE ""
         [] op.op \in {"pdec", "rdec"} -> IF Decrypts(st, op, out.m) THEN "" ELSE "open: a message is decrypted to another one, or with another password"
         [] op.op = "rhash" -> LET id == Id(st, op.x) IN
                               IF \E h \in st.hashes : (h[1] = id) # (h[2] = out.h) THEN "key: the hash of a public key doesn't identify it" ELSE ""
         [] op.op \in {"rcopy", "rpub"} -> IF out.same THEN "" ELSE "key: a key that was written is read differently"
         [] OTHER -> ""
Note(op, out) == LET s == Step(st, op) IN
  CASE op.op = "penc" -> [s EXCEPT !.texts = @ \cup {out.iv}]
    [] op.op = "renc" /\ out.v = "ok" -> [s EXCEPT !.texts = @ \cup {out.c}]
    [] op.op = "rhash" -> [s EXCEPT !.hashes = @ \cup {<<Id(st, op.x), out.h>>}]
    [] OTHER -> s
Init == i \in 1..Len(Rows) /\ k = 1 /\ st = Start
Next ==
  LET r == Rows[i] IN
  /\ UNCHANGED i
  /\ k <= Len(r.ops)
  /\ LET op == r.ops[k] out == r.outs[k] why == Verdict(op, out)
     IN IF why # "" THEN Bad(why) /\ k' = Len(r.ops) + 2 /\ st' = st
        ELSE k' = k + 1 /\ st' = Note(op, out)
=============================================================================
