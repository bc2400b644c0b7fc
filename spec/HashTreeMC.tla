----------------------------- MODULE HashTreeMC -----------------------------
(* The construction of a tree and the reordering of data as transitions, on *)
(* every list of blocks and every presented data of a small universe.       *)
EXTENDS HashTree, Json, IOUtils

Deep == IOEnv.TIER = "thorough"
Symbols == {"", "a", "b"}
SeqsUpTo(S, lo, n) == UNION {[1..k -> S] : k \in lo..n}
Lists == SeqsUpTo(Symbols, 0, IF Deep THEN 5 ELSE 4) \cup (IF Deep THEN SeqsUpTo({"a", "b"}, 6, 9) ELSE SeqsUpTo({"a", "b"}, 5, 5))
Datas == SeqsUpTo({"", "a", "b", "z"}, 0, IF Deep THEN 4 ELSE 3)

\* the root commits to the blocks, in order, up to the padding
ASSUME \A n \in {Len(l) : l \in Lists} :
         LET of == {l \in Lists : Len(l) = n} IN Cardinality({Root(l) : l \in of}) = Cardinality(of)
ASSUME Cardinality({Root(l) : l \in Lists}) = Cardinality({Padded(l) : l \in Lists})

VARIABLES blocks, pc, level, height, data, pos, left, out
vars == <<blocks, pc, level, height, data, pos, left, out>>

Init == /\ blocks \in Lists
        /\ pc = "pad" /\ level = <<>> /\ height = 0 /\ data = <<>> /\ pos = 0 /\ left = <<>> /\ out = <<>>

Pad == /\ pc = "pad"
       /\ level' = LeafLevel(blocks) /\ height' = 1 /\ pc' = "pair"
       /\ UNCHANGED <<blocks, data, pos, left, out>>
Pair == /\ pc = "pair" /\ Len(level) > 1
        /\ level' = Above(level) /\ height' = height + 1
        /\ UNCHANGED <<blocks, pc, data, pos, left, out>>
Present == /\ pc = "pair" /\ Len(level) = 1
           /\ data' \in Datas /\ pos' = 1 /\ left' = data' /\ pc' = "order"
           /\ UNCHANGED <<blocks, level, height, out>>
\* the next leaf takes its block among those that are left, if it is there
RemoveAt(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Scan == /\ pc = "order" /\ pos <= PaddedLength(Len(blocks))
        /\ LET x == Padded(blocks)[pos]
               at == {j \in 1..Len(left) : left[j] = x}
           IN IF at = {} THEN UNCHANGED <<left, out>>
              ELSE /\ left' = RemoveAt(left, CHOOSE j \in at : TRUE)
                   /\ out' = Append(out, x)
        /\ pos' = pos + 1
        /\ UNCHANGED <<blocks, pc, level, height, data>>
Finish == /\ pc = "order" /\ pos > PaddedLength(Len(blocks))
          /\ pc' = IF left = <<>> THEN "ok" ELSE "error"
          /\ UNCHANGED <<blocks, level, height, data, pos, left, out>>
Next == Pad \/ Pair \/ Present \/ Scan \/ Finish

RECURSIVE Log(_)
Log(n) == IF n <= 1 THEN 0 ELSE 1 + Log(n \div 2)

Result == IF pc = "ok" THEN [v |-> "ok", o |-> out] ELSE [v |-> "error"]
Sound ==
  /\ pc = "pair" => Len(level) * (2 ^ (height - 1)) = PaddedLength(Len(blocks))
  /\ pc \in {"order", "ok", "error"} => /\ level = <<Root(blocks)>>
                                        /\ height = Log(PaddedLength(Len(blocks))) + 1
  \* nothing is invented, lost or duplicated
  /\ pc \in {"order", "ok"} => \A x \in {"", "a", "b", "z"} : Occurrences(out, x) + Occurrences(left, x) = Occurrences(data, x)
  /\ pc \in {"ok", "error"} => /\ Result = Order(blocks, data)
                               /\ (pc = "ok" <=> Contains(Padded(blocks), data))
                               /\ (data = blocks => Result = [v |-> "ok", o |-> blocks])
                               /\ PrintT("CASE " \o ToJson([b |-> blocks, d |-> data, r |-> Result, h |-> height, n |-> PaddedLength(Len(blocks))]))
=============================================================================
