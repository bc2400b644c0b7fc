------------------------------- MODULE Cards -------------------------------
(* The texts of the cardinalities.  Reading a text answers                  *)
(*   [k |-> "card", min, max]  (max = -1: unbounded) for the well formed    *)
(*   [k |-> "bad"]             for those that can't mean a cardinality      *)
(*   [k |-> "open"]            for sloppy texts, on which nothing is said   *)
EXTENDS Integers, Sequences, TLC

Ch(t, j) == SubSeq(t, j, j)
Digits == "0123456789"
IsDigit(c) == \E j \in 1..10 : Ch(Digits, j) = c
IsNumber(t) == t # "" /\ \A j \in 1..Len(t) : IsDigit(Ch(t, j))
Value(t) == LET V[j \in 0..Len(t)] == IF j = 0 THEN 0 ELSE V[j-1] * 10 + (CHOOSE d \in 0..9 : Ch(Digits, d + 1) = Ch(t, j)) IN V[Len(t)]

RECURSIVE Trim(_), Split(_)
Trim(t) == IF t = "" THEN ""
           ELSE IF Ch(t, 1) = " " THEN Trim(SubSeq(t, 2, Len(t)))
           ELSE IF Ch(t, Len(t)) = " " THEN Trim(SubSeq(t, 1, Len(t) - 1)) ELSE t
Split(t) == IF \E j \in 1..Len(t) : Ch(t, j) = ","
            THEN LET j == CHOOSE j \in 1..Len(t) : Ch(t, j) = "," /\ \A x \in 1..(j-1) : Ch(t, x) # ","
                 IN <<SubSeq(t, 1, j - 1)>> \o Split(SubSeq(t, j + 1, Len(t)))
            ELSE <<t>>

Card(min, max) == [k |-> "card", min |-> min, max |-> max]
Bad == [k |-> "bad"]
Open == [k |-> "open"]

Sections(t) ==
  LET a == IF t # "" /\ Ch(t, 1) = "{" THEN SubSeq(t, 2, Len(t)) ELSE t
      b == IF a # "" /\ Ch(a, Len(a)) = "}" THEN SubSeq(a, 1, Len(a) - 1) ELSE a
  IN Split(b)
Braces(t) == Len(t) >= 2 /\ Ch(t, 1) = "{" /\ Ch(t, Len(t)) = "}"

Read(text) ==
  LET t == Trim(text) IN
  IF t = "?" THEN Card(0, 1) ELSE IF t = "+" THEN Card(1, -1) ELSE IF t = "*" THEN Card(0, -1)
  ELSE LET s == Sections(t)
           loose == [j \in 1..Len(s) |-> Trim(s[j])]
       IN IF Len(s) > 2 THEN Bad
          ELSE IF ~IsNumber(loose[1]) THEN Bad
          ELSE IF Len(s) = 2 /\ loose[2] # "" /\ ~IsNumber(loose[2]) THEN Bad
          ELSE IF Len(s) = 1 /\ Value(loose[1]) = 0 THEN Bad
          ELSE IF Len(s) = 2 /\ loose[2] # "" /\ Value(loose[2]) < Value(loose[1]) THEN Bad
          ELSE IF ~Braces(t) \/ loose # s THEN Open
          ELSE IF Len(s) = 1 THEN Card(Value(s[1]), Value(s[1]))
          ELSE Card(Value(s[1]), IF s[2] = "" THEN -1 ELSE Value(s[2]))

Accepts(c, n) == n >= c.min /\ (c.max = -1 \/ n <= c.max)
Write(c) == IF c.max = -1 THEN "{" \o ToString(c.min) \o ",}" ELSE "{" \o ToString(c.min) \o "," \o ToString(c.max) \o "}"
=============================================================================
