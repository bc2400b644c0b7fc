------------------------------- MODULE Cipher -------------------------------
(* Encryption with passwords and with key pairs, symbolically: what is      *)
(* encrypted is decrypted with the same secret, and tells nothing without.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Nothing == [x \in {} |-> 0]
Start == [obj |-> Nothing, texts |-> {}, hashes |-> {}]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

BlockSize == 16
\* the longest message of a key: two SHA-256 digests and two bytes of padding
Longest(bits) == bits \div 8 - 66
Id(st, slot) == st.obj[slot].id
KeyId(op) == ToString(op.bits) \o ":" \o ToString(op.k)

Made(st, op) ==
  CASE op.op = "penc" -> [t |-> "box", pass |-> op.p, m |-> op.m, n |-> op.n]
    [] op.op = "rkey" -> [t |-> "key", id |-> KeyId(op), bits |-> op.bits]
    [] op.op = "rcopy" -> st.obj[op.x]
    [] op.op = "rpub" -> [st.obj[op.x] EXCEPT !.t = "pub"]
    [] op.op = "renc" -> [t |-> "cipher", id |-> Id(st, op.k), bits |-> st.obj[op.k].bits, m |-> op.m, n |-> op.n]
Makes == {"penc", "rkey", "rcopy", "rpub", "renc"}
Succeeds(st, op) ==
  CASE op.op = "renc" -> op.n <= Longest(st.obj[op.k].bits)
    [] op.op = "pread" -> op.d.b /\ op.d.n >= BlockSize
    [] op.op = "rdec" -> op.edit = "" /\ st.obj[op.x].id = Id(st, op.k)
    [] op.op \in {"rread", "rforeign", "pnone"} -> FALSE
    [] OTHER -> TRUE
\* what is decrypted: the message, or anything else (but the message) with another password
Decrypts(st, op, m) ==
  LET o == st.obj[op.x]
  IN CASE op.op = "rdec" -> m = o.m
       [] op.op = "pdec" -> IF op.p = o.pass THEN m = o.m ELSE o.n >= 8 => m # o.m
Step(st, op) == IF op.op \in Makes /\ Succeeds(st, op) THEN [st EXCEPT !.obj = Put(@, op.e, Made(st, op))] ELSE st
=============================================================================
