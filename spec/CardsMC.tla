------------------------------ MODULE CardsMC ------------------------------
(* Every text of a small alphabet: what it has to be read as. *)
EXTENDS Cards, Json, IOUtils

Alphabet == <<"?", "+", "*", "{", "}", ",", "0", "1", "3", " ">>
MaxLen == IF IOEnv.TIER = "thorough" THEN 5 ELSE 4

\* the numbers around which something narrower than an amount ends
Large == <<"9", "10", "31", "64", "99", "100", "127", "128", "255", "256", "257", "300", "999", "1000", "1024", "32767", "32768",
           "65535", "65536", "65537", "1000000", "2147483646">>
LargeTexts == {"{" \o Large[j] \o "}" : j \in 1..Len(Large)} \cup {"{" \o Large[j] \o ",}" : j \in 1..Len(Large)}
              \cup {"{" \o m \o "," \o Large[j] \o "}" : m \in {"0", "1", "2"}, j \in 1..Len(Large)}
              \cup {"{" \o Large[j] \o "," \o Large[k] \o "}" : j \in 1..Len(Large), k \in 1..Len(Large)}

VARIABLE t
Init == t = "" \/ t \in LargeTexts
Next == Len(t) < MaxLen /\ \E j \in 1..Len(Alphabet) : t' = t \o Alphabet[j]

\* what is written is read as the same cardinality, and it accepts its bounds and no neighbour of them
Sound ==
  LET c == Read(t) IN
  /\ PrintT("CASE " \o ToJson([t |-> t, c |-> c]))
  /\ c.k = "card" =>
       /\ Read(Write(c)) = c
       /\ c.max = -1 \/ c.min <= c.max
       /\ Accepts(c, c.min) /\ (c.min > 0 => ~Accepts(c, c.min - 1))
       /\ (c.max # -1 => Accepts(c, c.max) /\ ~Accepts(c, c.max + 1))
=============================================================================
