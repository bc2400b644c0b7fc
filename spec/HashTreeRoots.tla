--------------------------- MODULE HashTreeRoots ----------------------------
(* The roots of all the recorded trees, together: two trees have the same   *)
(* root if and only if their padded blocks are the same.                    *)
EXTENDS HashTree, Json, IOUtils
Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Term == TLCEval([j \in 1..Len(Rows) |-> Root(Rows[j].b)])
VARIABLE i
Init == i \in 1..Len(Rows)
Next == FALSE /\ UNCHANGED i
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Check == LET wrong == {j \in 1..(i - 1) : (Term[j] = Term[i]) # (Rows[j].root = Rows[i].root)}
         IN wrong = {} \/ PrintT("BAD " \o ToJson([i |-> i, j |-> First(wrong)]))
=============================================================================
