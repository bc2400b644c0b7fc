------------------------------ MODULE Hashing -------------------------------
(* Hashes of data, of lists of data, and of texts, as terms: different      *)
(* terms have different hashes. Data of the size of a hash is the hash that *)
(* it is.                                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* data is a name, and whether it has the size of a hash
OfData(d) == IF d.raw THEN [t |-> "raw", l |-> <<d.n>>] ELSE [t |-> "data", l |-> <<d.n>>]
OfList(ds) == [t |-> "list", l |-> [j \in 1..Len(ds) |-> ds[j].n]]
\* a text in hexadecimal stands for its data; any other is refused
Readable(s) == s.k # "text" \/ s.hex
\* a list isn't told apart from data: nothing hashes both for the same use
Comparable(a, b) == (a.k = "multi") = (b.k = "multi")
Term(s) == IF s.k = "multi" THEN OfList(s.d)
           ELSE IF Readable(s) THEN OfData(s.d[1])
           ELSE [t |-> "none", l |-> <<>>]
=============================================================================
