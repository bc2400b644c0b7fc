--------------------------- MODULE HashTreeTrace ----------------------------
(* Validates trees recorded from the real code. A row contains the names of *)
(* the blocks, the identifiers of the hashes of every level and the answers *)
(* to reorderings.                                                          *)
EXTENDS HashTree, Json, IOUtils

Rows == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES i, shard
Shards == 64
Init == shard \in 1..Shards /\ i = 0
Next == i = 0 /\ UNCHANGED shard /\ \E j \in {k \in 1..Len(Rows) : k % Shards = shard - 1} : i' = j

Bad(why) == PrintT("BAD " \o ToJson([i |-> i, why |-> why]))
Same(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : s[j] = t[j]

\* the terms and the identifiers of a row are in bijection
Pairs(levels, ids) == {<<levels[k][j], ids[k][j]>> : k \in 1..Len(levels), j \in 1..Len(levels[1])}
RowPairs(r) == LET ls == TLCEval(Levels(r.b)) IN UNION {{<<ls[k][j], r.levels[k][j]>> : j \in 1..Len(ls[k])} : k \in 1..Len(ls)}
\* the leaves are the hashes of the blocks, then of the empty block; a parent is made of its two children and of nothing else
LeafPairs(r) == LET ls == LeafLevel(r.b) IN {<<ls[j], r.levels[Len(r.levels)][j]>> : j \in 1..Len(ls)}
ParentPairs(r) == UNION {{<< <<r.levels[k+1][2*j-1], r.levels[k+1][2*j]>>, r.levels[k][j] >> : j \in 1..Len(r.levels[k])} : k \in 1..(Len(r.levels) - 1)}
Bijection(ps) == Cardinality({p[1] : p \in ps}) = Cardinality(ps) /\ Cardinality({p[2] : p \in ps}) = Cardinality(ps)

\* a tree that is made of parts of the tree: the same leaves, its halves swapped, its first half twice, its second half
Halves(bs) == LET p == Padded(bs) h == Len(p) \div 2 IN <<SubSeq(p, 1, h), SubSeq(p, h + 1, Len(p))>>
PartBlocks(bs, kind) ==
  LET h == Halves(bs)
  IN CASE kind = "same" -> bs [] kind = "swapped" -> h[2] \o h[1] [] kind = "twice" -> h[1] \o h[1] [] kind = "half" -> h[2]
PartPairs(r, p) == LET ls == TLCEval(Levels(PartBlocks(r.b, p.kind))) IN UNION {{<<ls[k][j], p.levels[k][j]>> : j \in 1..Len(ls[k])} : k \in 1..Len(ls)}
PartShape(r, p) == LET ls == TLCEval(Levels(PartBlocks(r.b, p.kind))) IN p.v = "ok" /\ Len(ls) = Len(p.levels) /\ \A k \in 1..Len(ls) : Len(ls[k]) = Len(p.levels[k])
\* the leaves below the node j of the level k
Below(r, k, j) == LET bottom == r.levels[Len(r.levels)] w == Len(bottom) \div Len(r.levels[k + 1]) IN SubSeq(bottom, (j - 1) * w + 1, j * w)

Check ==
  i = 0 \/
  LET r == Rows[i]
      ls == TLCEval(Levels(r.b))
      shape == Len(ls) = Len(r.levels) /\ \A k \in 1..Len(ls) : Len(ls[k]) = Len(r.levels[k])
      bottom == r.levels[Len(r.levels)]
  IN /\ shape \/ Bad("shape: the tree is not the complete binary tree of its blocks")
     /\ (~shape \/ Bijection(RowPairs(r))) \/ Bad("root: the hashes of the tree don't determine its blocks and positions")
     /\ (~shape \/ Bijection(LeafPairs(r))) \/ Bad("shape: the leaves are not the blocks in their order, padded with empty blocks")
     /\ (~shape \/ Bijection(ParentPairs(r))) \/ Bad("shape: a parent is not determined by its two children")
     /\ r.length = Len(ls[Len(ls)]) \/ Bad("shape: length")
     /\ r.height = Len(ls) \/ Bad("shape: height")
     /\ (r.clength = r.length /\ r.chead = r.head /\ r.head = r.levels[1][1]) \/ Bad("shape: compact head and length")
     /\ (Same(r.cleaves, bottom) /\ Same(r.leaves, bottom)) \/ Bad("shape: leaves of the tree and of its compact form")
     /\ (\A k \in 1..Len(r.heights) : \A j \in 1..Len(r.heights[k]) : r.heights[k][j] = Len(r.heights) - k) \/ Bad("shape: heights of the leaves")
     /\ (~shape \/ \A k \in 1..Len(r.below) : \A j \in 1..Len(r.below[k]) : Same(r.below[k][j], Below(r, k, j)))
        \/ Bad("shape: the leaves of a node are not those below it")
     /\ (~shape \/ \A k \in 1..Len(r.parts) : PartShape(r, r.parts[k]))
        \/ Bad("shape: the parts of the tree make no complete binary tree")
     /\ (~shape \/ (\E k \in 1..Len(r.parts) : ~PartShape(r, r.parts[k])) \/ Bijection(RowPairs(r) \cup UNION {PartPairs(r, r.parts[k]) : k \in 1..Len(r.parts)}))
        \/ Bad("shape: a part of the tree makes another tree than its leaves")
     /\ \A k \in 1..Len(r.orders) :
          LET o == r.orders[k]
              x == Order(r.b, o.d)
          IN (o.v = x.v /\ (x.v = "error" \/ Same(o.o, x.o))) \/ PrintT("BAD " \o ToJson([i |-> i, why |-> "order: the reordered data is not the data in the order of the tree", k |-> k, x |-> x]))
=============================================================================
