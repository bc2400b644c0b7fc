------------------------------ MODULE ScriptsMC -----------------------------
(***************************************************************************)
(* All the small programs of the base language: TLC writes each of them,   *)
(* verifies that no two different programs are written the same way, and   *)
(* prints them, to be read by the real code.                               *)
(***************************************************************************)
EXTENDS Scripts, Json, IOUtils

Deep == IOEnv.TIER = "thorough"
V(n) == [k |-> "var", name |-> n]
Number(neg, int, frac) == [lit |-> "number", neg |-> neg, int |-> int, frac |-> frac]
Numbers == {Number(FALSE, "7", ""), Number(TRUE, "12", ""), Number(FALSE, "3", "25"), Number(TRUE, "0", "5")}
Str == [lit |-> "string", s |-> "a (b) // c"]
Lone(e) == [a |-> e, has |-> FALSE]
Two(a, op, b) == [a |-> a, has |-> TRUE, op |-> op, b |-> b]
Elements == {V("aa"), [k |-> "bool", v |-> TRUE], [k |-> "bool", v |-> FALSE]} \cup {[k |-> "value", v |-> n] : n \in Numbers}
Few == {V("aa"), [k |-> "value", v |-> Number(TRUE, "12", "")]}
Nested == {[k |-> "operation", o |-> Two(V("bb"), op, V("cc"))] : op \in {"arithmetic -", "relational equal less"}}
          \cup {[k |-> "operation", o |-> Lone([k |-> "callNull", o |-> Lone(V("bb"))])]}
Ops2 == {Two(a, op, b) : a \in Few, op \in DOMAIN Operators, b \in Few}
        \cup {Two(a, op, b) : a \in Elements \cup Nested, op \in {"arithmetic -", "logical ||", "relational less"}, b \in Elements \cup Nested}
Calls == {Lone([k |-> "callNull", o |-> o]) : o \in {Lone(e) : e \in Elements} \cup {Two(a, "arithmetic *", b) : a \in Few, b \in Nested}}
Ops == {Lone(e) : e \in Elements} \cup Ops2 \cup Calls

Indices == {[k |-> "value", v |-> Number(FALSE, "0", "")], [k |-> "value", v |-> Number(FALSE, "31", "")], V("ii")}
Ofs(set) == {[k |-> "of", l |-> <<>>]} \cup {[k |-> "of", l |-> <<x>>] : x \in set} \cup {[k |-> "of", l |-> <<x, y>>] : x \in set, y \in set}
ListVar == [k |-> "list", l |-> V("ll")]
Simple == {[k |-> "value", v |-> Number(FALSE, "7", "")], [k |-> "value", v |-> Str], ListVar}
Lists == {V("ll")} \cup Ofs(Simple \cup {[k |-> "list", l |-> [k |-> "of", l |-> <<>>]], [k |-> "operation", o |-> Two(V("aa"), "arithmetic +", V("bb"))]})
FewLists == {V("ll"), [k |-> "of", l |-> <<>>], [k |-> "of", l |-> <<[k |-> "value", v |-> Number(TRUE, "12", "")], ListVar>>]}
Slices(ls) == {[k |-> "slice", l |-> l, from |-> f, has |-> FALSE] : l \in ls, f \in Indices}
              \cup {[k |-> "slice", l |-> l, from |-> f, has |-> TRUE, to |-> t] : l \in ls, f \in Indices, t \in Indices}
Appends(ls, es) == {[k |-> "append", l |-> l, e |-> e] : l \in ls, e \in es}
Totals == {[k |-> "list", l |-> l] : l \in FewLists} \cup {[k |-> "slice", l |-> l, from |-> [k |-> "value", v |-> Number(FALSE, "1", "")], has |-> FALSE] : l \in FewLists}
          \cup Appends(FewLists, {[k |-> "value", v |-> Number(FALSE, "7", "")]})
Extracts == {[k |-> "extract", l |-> t] : t \in Totals}
Fetches == {[k |-> "fetch", l |-> t, i |-> x] : t \in (Totals \ {ListVar}) \cup {V("ll")}, x \in Indices}
Singles == {[k |-> "value", v |-> v] : v \in Numbers \cup {Str, [lit |-> "bool", b |-> TRUE], [lit |-> "bool", b |-> FALSE]}} \cup {[k |-> "operation", o |-> o] : o \in Ops2 \cup Calls} \cup Extracts \cup Fetches
Assignables == Singles \cup {[k |-> "list", l |-> l] : l \in Lists} \cup Slices(FewLists)
               \cup Appends(FewLists, Extracts \cup Fetches \cup {[k |-> "value", v |-> v] : v \in Numbers \cup {Str}} \cup {[k |-> "operation", o |-> o] : o \in Calls})

Types == {[depth |-> d, flags |-> f] : d \in 0..(IF Deep THEN 3 ELSE 2), f \in {"unsigned+integer", "integer", "float", "string", "bool"}}
Decls == {[type |-> t, name |-> n] : t \in Types, n \in {"aa", "integer"}}
Skip == [k |-> "skip"]
Seven == [k |-> "value", v |-> Number(FALSE, "7", "")]
Names == {V("aa"), V("boolean"), Skip}
NewNames == Names \cup {[k |-> "declare", decl |-> d] : d \in {x \in Decls : x.type.depth < 2 /\ x.name = "integer"}}
Assigns == {[k |-> "assign", to |-> [k |-> "first", names |-> <<V("aa")>>], of |-> <<a>>] : a \in Assignables}
           \cup {[k |-> "assign", to |-> [k |-> "name", names |-> <<V("aa")>>], of |-> <<a, Seven>>] : a \in Assignables}
           \cup {[k |-> "assign", to |-> [k |-> "first", names |-> <<x, y>>], of |-> <<Seven>>] : x \in NewNames, y \in NewNames}
           \cup {[k |-> "assign", to |-> [k |-> "name", names |-> <<x, y>>], of |-> <<Seven>>] : x \in Names, y \in Names}
           \cup {[k |-> "assign", to |-> [k |-> c, names |-> <<x>>], of |-> <<Seven>>] : x \in Names, c \in {"first", "name"}}
Leaves == {[k |-> "declare", decl |-> d] : d \in Decls} \cup {[k |-> "go", to |-> w] : w \in {"break", "continue"}}
          \cup {[k |-> "incr", name |-> "aa", by |-> [type |-> Typ("integer"), v |-> w]] : w \in {"int 1", "int -1"}}
          \cup {[k |-> "calllog", of |-> a] : a \in Singles}
Bodies == {<<>>} \cup {<<x>> : x \in {[k |-> "go", to |-> "break"], [k |-> "assign", to |-> [k |-> "name", names |-> <<V("aa")>>], of |-> <<Seven>>]}}
          \cup {<<[k |-> "incr", name |-> "aa", by |-> [type |-> Typ("integer"), v |-> "int 1"]], [k |-> "go", to |-> "continue"]>>}
Ifs(bodies, ops) == {[k |-> "if", cond |-> o, has |-> b # <<>>, ins |-> b] : o \in ops, b \in bodies}
Fors(bodies, ts) == {[k |-> "for", index |-> x, value |-> y, over |-> t, has |-> b # <<>>, ins |-> b] : x \in Names, y \in Names, t \in ts, b \in bodies}
OneInIf == {<<x>> : x \in Ifs({<<>>}, {Lone(V("bb"))}) \cup Fors({<<>>}, {V("ll")})}
One == Assigns \cup Leaves \cup Ifs({<<>>}, Ops) \cup Ifs(Bodies \cup OneInIf, {Lone(V("bb"))}) \cup Fors(Bodies \cup OneInIf, {V("ll")})
       \cup {[k |-> "for", index |-> Skip, value |-> V("aa"), over |-> t, has |-> FALSE, ins |-> <<>>] : t \in Totals \ {ListVar}}

\* an instruction followed by another
Followers == {[k |-> "assign", to |-> [k |-> "name", names |-> <<Skip>>], of |-> <<Seven>>], [k |-> "declare", decl |-> [type |-> Typ("bool"), name |-> "boolean"]],
         [k |-> "go", to |-> "break"], [k |-> "if", cond |-> Lone(V("bb")), has |-> FALSE, ins |-> <<>>], [k |-> "calllog", of |-> Seven],
         [k |-> "incr", name |-> "integer", by |-> [type |-> Typ("integer"), v |-> "int 1"]]}
Headers == {[in |-> x, must |-> m, decl |-> d, key |-> "some_key"] : x \in BOOLEAN, m \in BOOLEAN, d \in {y \in Decls : y.name = "aa"}}
Plain(is) == [has |-> FALSE, vars |-> <<>>, ins |-> is]
Programs == {Plain(<<x>>) : x \in One}
            \cup {Plain(<<x, y>>) : x \in {z \in One : z.k # "assign" \/ z.to.k = "name"}, y \in (IF Deep THEN Followers ELSE {l \in Followers : l.k \in {"assign", "declare"}})}
            \cup {[has |-> TRUE, vars |-> <<h>>, ins |-> <<y>>] : h \in Headers, y \in Followers}
            \cup {[has |-> TRUE, vars |-> <<h, g>>, ins |-> <<[k |-> "go", to |-> "break"]>>] : h \in {x \in Headers : x.decl.type.depth = 1}, g \in {x \in Headers : x.decl.type.depth = 0}}

Text(p) == LET ls == Written(p) F[j \in 0..Len(ls)] == IF j = 0 THEN "" ELSE F[j-1] \o " " \o ls[j] IN F[Len(ls)]

\* what is written can be read in one way only
ASSUME Unambiguous == Cardinality({Text(p) : p \in Programs}) = Cardinality({Meaning(p) : p \in Programs})

All == SetToSeq(Programs)
Shards == 64
VARIABLES shard, p
Init == shard \in 1..Shards /\ p = <<>>
Next == /\ p = <<>>
        /\ UNCHANGED shard
        /\ \E j \in {i \in 1..Len(All) : i % Shards = shard - 1} : p' = All[j]
Sound == p = <<>> \/ (AllFit(p, 8) /\ PrintT("CASE " \o ToJson([p |-> p, text |-> Text(p)])))
=============================================================================
