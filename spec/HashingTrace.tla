---------------------------- MODULE HashingTrace ----------------------------
(* Validates hashes recorded from the real code: a row is a list of steps,  *)
(* with the name of the hash of each, and the steps it compares equal to.   *)
EXTENDS Hashing, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES i, shard
Shards == 64
Init == shard \in 1..Shards /\ i = 0
Next == i = 0 /\ UNCHANGED shard /\ \E j \in {k \in 1..Len(Rows) : k % Shards = shard - 1} : i' = j
Bad(k, why) == PrintT("BAD " \o ToJson([i |-> i, k |-> k, why |-> why]))

Before(o, k) == {o.same[j] : j \in 1..Len(o.same)}
Check ==
  i = 0 \/
  LET s == Rows[i].s o == Rows[i].o
      made == {k \in 1..Len(s) : o[k].v = "ok"}
      terms == TLCEval([k \in 1..Len(s) |-> Term(s[k])])
  IN \A k \in 1..Len(s) :
       /\ (o[k].v = "ok") = Readable(s[k]) \/ Bad(k, "a text is " \o (IF o[k].v = "ok" THEN "read although it isn't hexadecimal" ELSE "refused"))
       /\ k \notin made \/
          LET wrong == {j \in made : j < k /\ Comparable(s[j], s[k]) /\ (terms[j] = terms[k]) # (o[j].h = o[k].h)}
              equal == {j \in made : j <= k /\ o[j].h = o[k].h}
          IN /\ wrong = {} \/ Bad(k, "the hashes of two " \o (IF terms[CHOOSE j \in wrong : TRUE] = terms[k] THEN "equal data differ" ELSE "different data are the same"))
             /\ Before(o[k], k) = equal \/ Bad(k, "two hashes are compared wrongly")
             /\ (o[k].text = o[k].h /\ o[k].copy = o[k].h) \/ Bad(k, "a hash isn't read back from its text or bytes")
             /\ o[k].kept \/ Bad(k, "the data is modified")
             /\ (terms[k].t = "raw" => o[k].h = terms[k].l[1]) \/ Bad(k, "data of the size of a hash isn't that hash")
             /\ (terms[k].t # "raw" => o[k].h \notin {terms[k].l[j] : j \in 1..Len(terms[k].l)}) \/ Bad(k, "a hash is the data itself")
=============================================================================
