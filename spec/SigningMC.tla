----------------------------- MODULE SigningMC ------------------------------
(* Exhaustive universe of the signatures: three keys; every ring of at most *)
(* three of them, every signer, every list of hashes; every signature that  *)
(* is assembled from the parts of others. TLC verifies that nothing         *)
(* verifies unless it was signed, and prints what every case answers.       *)
EXTENDS Signing, Json, IOUtils, SequencesExt
Deep == IOEnv.TIER = "thorough"
Keys == 1..3
Msgs == {"m", "n"}
Op(o) == o
Seqs(S, n) == UNION {[1..l -> S] : l \in 0..n}
RECURSIVE Run(_, _, _)
Run(s, ops, j) == IF j > Len(ops) THEN s ELSE Run(IF MaySucceed(s, ops[j]) THEN Step(s, ops[j]) ELSE s, ops, j + 1)
KeyOps == [j \in 1..3 |-> [op |-> "key", e |-> j]]
Base == TLCEval(Run(Start, KeyOps, 1))

VARIABLE case, done
\* rings: the signer and the ring
RingOp(c) == [op |-> "rsign", e |-> 10, k |-> c.k, ring |-> c.ring, m |-> "m"]
Hashes == TLCEval(SetToSeq(Seqs(0..3, IF Deep THEN 3 ELSE 2) \cup Seqs(Keys, 3)))
\* assembled ring signatures, from three genuine ones
Three == << [op |-> "rsign", e |-> 11, k |-> 1, ring |-> <<1, 2>>, m |-> "m"],
            [op |-> "rsign", e |-> 12, k |-> 2, ring |-> <<1, 2>>, m |-> "m"],
            [op |-> "rsign", e |-> 13, k |-> 1, ring |-> <<2, 1>>, m |-> "n"] >>
World3 == TLCEval(Run(Base, Three, 1))
Parts == {[x |-> x, p |-> p] : x \in (IF Deep THEN {11, 12, 13} ELSE {11, 13}), p \in 1..2} \cup {[x |-> 0, p |-> 0]}
Rings2 == IF Deep THEN Seqs(Keys, 2) \cup {<<1, 2, 3>>, <<1, 2, 1>>} ELSE Seqs(1..2, 2) \cup {<<3, 2>>, <<1, 2, 3>>}
Assembled(c) == [op |-> "rassemble", e |-> 20, ring |-> c.ring, ss |-> c.ss, ei |-> c.ei]
\* plain signatures, and their parts
Four == << [op |-> "sign", e |-> 11, k |-> 1, m |-> "m"], [op |-> "sign", e |-> 12, k |-> 1, m |-> "n"],
           [op |-> "sign", e |-> 13, k |-> 2, m |-> "m"], [op |-> "sign", e |-> 14, k |-> 2, m |-> "n"] >>
World4 == TLCEval(Run(Base, Four, 1))

Init == /\ done = FALSE
        /\ case \in {[t |-> "ring", k |-> s, ring |-> r, ss |-> <<>>, ei |-> 0, r |-> 0, s |-> 0] : s \in Keys, r \in Seqs(Keys, 3) \ {<<>>}}
                \cup {[t |-> "parts", k |-> 0, ring |-> r, ss |-> ss, ei |-> e, r |-> 0, s |-> 0] : r \in Rings2, ss \in Seqs(Parts, 2), e \in {11, 13}}
                \cup {[t |-> "sig", k |-> 0, ring |-> <<>>, ss |-> <<>>, ei |-> 0, r |-> r, s |-> s] : r \in {0, 11, 12, 13, 14}, s \in {0, 11, 12, 13, 14}}
State == CASE case.t = "ring" -> Run(Base, <<RingOp(case)>>, 1)
           [] case.t = "parts" -> Run(World3, <<Assembled(case)>>, 1)
           [] case.t = "sig" -> Run(World4, << [op |-> "assemble", e |-> 20, r |-> case.r, s |-> case.s] >>, 1)
Object(s) == IF case.t = "ring" THEN s.obj[10] ELSE s.obj[20]
Answers ==
  CASE case.t = "ring" /\ ~MaySucceed(Base, RingOp(case)) -> [ok |-> FALSE, is |-> <<>>, hs |-> <<>>]
    [] case.t = "ring" -> LET s == State IN [ok |-> TRUE, is |-> <<Verifies(s, Object(s), "m"), Verifies(s, Object(s), "n")>>,
                                             hs |-> SelectSeq([j \in 1..Len(Hashes) |-> j], LAMBDA j : Checks(s, Object(s), "m", Hashes[j]))]
    [] case.t = "parts" -> LET s == State IN [ok |-> ~MayFail(World3, Assembled(case)), is |-> <<Verifies(s, Object(s), "m"), Verifies(s, Object(s), "n")>>, hs |-> <<>>]
    [] case.t = "sig" -> LET s == State IN [ok |-> case.r = case.s /\ case.r # 0, is |-> <<Recovered(s, Object(s), "m"), Recovered(s, Object(s), "n")>>, hs |-> <<>>]
Next == ~done /\ done' = TRUE /\ UNCHANGED case /\ PrintT("CASE " \o ToJson([c |-> case, a |-> Answers]))
\* nothing verifies unless one of the ring signed it
Unforgeable ==
  LET s == State IN
  case.t \in {"ring", "parts"} /\ (case.t = "ring" => MaySucceed(Base, RingOp(case))) =>
    \A m \in Msgs : Verifies(s, Object(s), m) => \E g \in s.gen : g.t = "rsig" /\ g.msg = m /\ In(g.key, Object(s).ring)
Recoverable == LET s == State IN case.t = "sig" => \A m \in Msgs : LET id == Recovered(s, Object(s), m) IN id > 0 => \E g \in s.gen : g.key = id /\ g.msg = m
Printed == PrintT("HASHES " \o ToJson(Hashes))
ASSUME Printed
Sound == Unforgeable /\ Recoverable
=============================================================================
