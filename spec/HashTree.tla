------------------------------ MODULE HashTree ------------------------------
(* The hash trees: a list of blocks is padded with empty blocks to a power  *)
(* of two (at least two), its leaves are hashed pairwise up to one root.    *)
(* Hashes are terms: equal terms stand for equal hashes, different terms    *)
(* for different ones (a hash without collisions).                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

LeafTerm(b) == "<" \o b \o ">"
NodeTerm(l, r) == "[" \o l \o r \o "]"

RECURSIVE PowerFrom(_, _)
PowerFrom(p, n) == IF p >= n THEN p ELSE PowerFrom(p * 2, n)
PaddedLength(n) == PowerFrom(2, n)
Padded(bs) == [j \in 1..PaddedLength(Len(bs)) |-> IF j <= Len(bs) THEN bs[j] ELSE ""]
LeafLevel(bs) == [j \in 1..PaddedLength(Len(bs)) |-> LeafTerm(Padded(bs)[j])]
Above(level) == [j \in 1..(Len(level) \div 2) |-> NodeTerm(level[2*j - 1], level[2*j])]

\* every level, from the root to the leaves
RECURSIVE LevelsAbove(_)
LevelsAbove(level) == IF Len(level) = 1 THEN <<level>> ELSE LevelsAbove(TLCEval(Above(level))) \o <<level>>
Levels(bs) == LevelsAbove(TLCEval(LeafLevel(bs)))
Root(bs) == Levels(bs)[1][1]

\* the blocks of data, in the order of the tree; refused when data contains what the tree doesn't
Occurrences(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
Contains(leaves, data) == \A j \in 1..Len(data) : Occurrences(data, data[j]) <= Occurrences(leaves, data[j])
RECURSIVE OrderFrom(_, _, _)
OrderFrom(leaves, j, left) ==
  IF j > Len(leaves) THEN <<>>
  ELSE IF left[leaves[j]] > 0
       THEN <<leaves[j]>> \o OrderFrom(leaves, j + 1, [left EXCEPT ![leaves[j]] = @ - 1])
       ELSE OrderFrom(leaves, j + 1, left)
Order(bs, data) ==
  LET leaves == TLCEval(Padded(bs))
      all == {leaves[j] : j \in 1..Len(leaves)} \cup {data[j] : j \in 1..Len(data)}
  IN IF Contains(leaves, data) THEN [v |-> "ok", o |-> OrderFrom(leaves, 1, [x \in all |-> Occurrences(data, x)])]
     ELSE [v |-> "error"]
=============================================================================
