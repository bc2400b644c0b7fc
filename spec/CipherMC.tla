------------------------------ MODULE CipherMC ------------------------------
(* Exhaustive universe: every short sequence of encryptions and decryptions *)
(* with two passwords (or two key pairs) and two messages. TLC verifies     *)
(* that only the right secret opens, and prints the sequences.              *)
EXTENDS Cipher, Json, IOUtils
Depth == IF IOEnv.TIER = "thorough" THEN 4 ELSE 3
Mode == IOEnv.MODE
Pass == {"70", "7070"}
Msg == {"6d657373616765206f6e65", "6d6573736167652074776f"}
Base == IF Mode = "password" THEN Start
        ELSE LET a == Step(Start, [op |-> "rkey", e |-> 91, k |-> 1, bits |-> 1024]) IN Step(a, [op |-> "rkey", e |-> 92, k |-> 2, bits |-> 1024])
VARIABLES hist, st
Encs == IF Mode = "password" THEN {[op |-> "penc", e |-> Len(hist) + 1, p |-> p, m |-> m, n |-> 11, form |-> f] : p \in Pass, m \in Msg, f \in {"", "fresh"}}
        ELSE {[op |-> "renc", e |-> Len(hist) + 1, k |-> k, m |-> m, n |-> 11] : k \in {x \in DOMAIN st.obj : st.obj[x].t \in {"key", "pub"}}, m \in Msg}
             \cup {[op |-> "rpub", e |-> Len(hist) + 1, x |-> x, form |-> f] : x \in {91}, f \in {"bytes", "text"}}
             \cup {[op |-> "rcopy", e |-> Len(hist) + 1, x |-> x, form |-> f] : x \in {91}, f \in {"bytes", "text"}}
Decs == IF Mode = "password" THEN {[op |-> "pdec", x |-> x, p |-> p, form |-> f] : x \in DOMAIN st.obj, p \in Pass, f \in {"", "fresh"}}
        ELSE {[op |-> "rdec", x |-> x, k |-> k, edit |-> e, at |-> 5] : x \in {y \in DOMAIN st.obj : st.obj[y].t = "cipher"},
                                                                       k \in {y \in DOMAIN st.obj : st.obj[y].t = "key"}, e \in {"", "flip", "cut", "add"}}
Init == hist = <<>> /\ st = Base
Next == /\ Len(hist) < Depth
        /\ \E op \in Encs \cup Decs : hist' = Append(hist, op) /\ st' = Step(st, op)
Useful(h) == h[Len(h)].op \in {"pdec", "rdec"}
Emit == Len(hist) = Depth /\ Useful(hist) => PrintT("HIST " \o ToJson(hist))
OnlyTheSecretOpens == \A op \in Decs : op.op = "rdec" /\ Succeeds(st, op) => st.obj[op.x].id = Id(st, op.k) /\ op.edit = ""
Sound == Emit /\ OnlyTheSecretOpens
=============================================================================
