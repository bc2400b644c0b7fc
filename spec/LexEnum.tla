------------------------------ MODULE LexEnum ------------------------------
(* Exhaustive small universes of grammars and scripts: every grammar of the *)
(* universe PROFILE is one state; the invariants are the properties of the  *)
(* specified semantics themselves, and every state prints the outcome of    *)
(* every script, which the conformance checks replay in the real code.      *)
EXTENDS Lexer, Json, IOUtils

Profile == IOEnv.PROFILE
Deep == IOEnv.TIER = "thorough"

RECURSIVE StrN(_, _)
StrN(A, n) == IF n = 0 THEN {""} ELSE {a \o w : a \in A, w \in StrN(A, n - 1)}
StrUpTo(A, n) == UNION {StrN(A, k) : k \in 1..n}
SeqsOf(S, n) == [1..n -> S]
SeqsUpTo(S, n) == UNION {SeqsOf(S, k) : k \in 1..n}

Cards == {<<1, 1>>, <<0, 1>>, <<1, -1>>, <<0, -1>>, <<2, 2>>, <<1, 2>>, <<2, -1>>}
R(n, c) == [k |-> "r", n |-> n, min |-> c[1], max |-> c[2]]
T(n, c) == [k |-> "t", n |-> n, min |-> c[1], max |-> c[2], sp |-> <<>>]
TS(n, c, sp) == [k |-> "t", n |-> n, min |-> c[1], max |-> c[2], sp |-> sp]
Sp(n, c) == [n |-> n, min |-> c[1], max |-> c[2]]
SW == [k |-> "sw"]
One == <<1, 1>>
Tok(must) == [must |-> must, not |-> <<>>]
C(c) == [k |-> "c", c |-> c]
P(p, c) == [k |-> "p", p |-> p, min |-> c[1], max |-> c[2]]
Opt(gs) == [rev |-> FALSE, grp |-> gs]
Rev(gs) == [rev |-> TRUE, grp |-> gs]
NoPat == [pa |-> << Opt(<< <<"q">> >>) >>]
NoChan == [x \in {} |-> 0]
G(pat, rule, tok) == [pat |-> pat, rule |-> rule, tok |-> tok, chan |-> NoChan, co |-> <<>>, root |-> "root"]
GC(pat, rule, tok, chan, co) == [pat |-> pat, rule |-> rule, tok |-> tok, chan |-> chan, co |-> co, root |-> "root"]

-----------------------------------------------------------------------------
(* the universes *)
ABC == [A |-> C("a"), B |-> C("b"), X |-> C("ab")]

\* patterns: one or two choices of one or two groups
OptGroups == IF Deep THEN {<<"a">>, <<"b">>, <<"a", "ab">>, <<"ab", "b">>, <<"a", "b">>, <<"ba">>}
          ELSE {<<"a">>, <<"a", "ab">>, <<"ab", "b">>}
PatChoices == {[rev |-> r, grp |-> gs] : r \in BOOLEAN, gs \in SeqsUpTo(OptGroups, 2)}
UPatterns == {G([pa |-> p], [A |-> P(<<"pa">>, One)], [root |-> Tok(<< <<R("A", One)>> >>)]) : p \in SeqsUpTo(PatChoices, 2)}

\* rules: constants and repeated patterns, followed by another element
PatRules == {P(<<"pa">>, c) : c \in Cards \cup {<<3, 3>>, <<2, 3>>}} \cup {P(<<"pa", "pb">>, c) : c \in Cards}
URules == {G([pa |-> << Opt(<< <<"a">> >>) >>, pb |-> << Opt(<< <<"ab", "b">> >>) >>],
             [A |-> a, B |-> C("b")],
             [root |-> Tok(<<l>>)]) : a \in {C("a"), C("ab"), C("aa")} \cup PatRules,
                                      l \in {<<R("A", c)>> : c \in Cards} \cup {<<R("A", c), R("B", d)>> : c \in Cards, d \in Cards}
                                         \cup (IF Deep THEN {<<R("B", c), R("A", d), R("B", e)>> : c \in Cards, d \in Cards, e \in {One, <<0, -1>>}} ELSE {})}

\* cardinalities of rules and of tokens
CardsAll == {<<n, m>> : n \in 0..3, m \in {-1} \cup 1..3}
CardsOK == {c \in CardsAll : c[2] = -1 \/ (c[2] >= c[1])}
UCards == {G(NoPat, ABC, [root |-> Tok(<<l>>), t |-> Tok(<< <<R("A", One)>> >>)]) :
             l \in {<<R("A", c)>> : c \in CardsOK} \cup {<<T("t", c)>> : c \in CardsOK}
                \cup {<<R("A", c), R("B", d)>> : c \in CardsOK, d \in CardsOK}
                \cup {<<T("t", c), R("A", d)>> : c \in CardsOK, d \in CardsOK}
                \cup {<<R("A", c), T("t", d)>> : c \in CardsOK, d \in CardsOK}}

\* alternatives
AltElements == {R("A", One), R("B", One), R("X", One), R("A", <<1, -1>>), R("B", <<0, 1>>), T("t", One)}
AltLines == IF Deep THEN SeqsUpTo(AltElements, 2) ELSE SeqsUpTo(AltElements \ {R("A", <<1, -1>>)}, 2)
UAlts == {G(NoPat, ABC, [root |-> Tok(ls), t |-> Tok(<< <<R("B", One)>>, <<R("A", One), R("B", One)>> >>)]) :
            ls \in SeqsOf(AltLines, 2) \cup {<< <<R("A", One)>>, l, <<R("X", One), R("A", One)>> >> : l \in AltLines}}

\* not blocks, on the root and on a token that is referenced
NotLines == {<<R("A", One)>>, <<R("B", One)>>, <<R("X", One)>>, <<R("A", <<2, 2>>)>>, <<R("A", One), R("B", One)>>, <<R("B", <<0, 1>>), R("A", One)>>,
             <<R("B", <<0, -1>>)>>}
UNots == {G(NoPat, ABC, [root |-> [must |-> << m >>, not |-> n], t |-> [must |-> <<m2>>, not |-> n2]]) :
            m \in {<<R("A", <<1, -1>>), R("B", <<0, 1>>)>>, <<T("t", <<1, -1>>), R("B", <<0, -1>>)>>, <<R("B", <<0, 1>>), T("t", <<0, 2>>)>>},
            n \in {<<>>} \cup SeqsOf(NotLines, 1) \cup (IF Deep THEN SeqsOf(NotLines, 2) ELSE {}),
            m2 \in {<<R("A", One)>>, <<R("A", One), R("B", <<0, 1>>)>>, <<R("X", <<1, -1>>)>>},
            n2 \in {<<>>} \cup SeqsOf(NotLines, 1)}

\* specifiers
SpCards == {One, <<2, 2>>, <<0, 1>>, <<1, -1>>, <<2, -1>>, <<1, 2>>}
Specs == {<<Sp(n, c)>> : n \in {"A", "B", "u"}, c \in SpCards} \cup (IF Deep THEN {<<Sp("A", c), Sp(n, d)>> : c \in SpCards, n \in {"B", "u"}, d \in SpCards} ELSE {})
USpecs == {G(NoPat, ABC, [root |-> Tok(<< l >>), t |-> Tok(<< m1, <<R("B", One), T("u", One)>> >>), u |-> Tok(<< <<R("A", One)>> >>)]) :
             l \in {<<TS("t", c, s)>> : c \in {One, <<1, -1>>, <<0, 1>>, <<2, 2>>}, s \in Specs}
                \cup {<<TS("t", c, s), R("B", <<0, -1>>)>> : c \in {<<0, 1>>, <<1, 2>>}, s \in Specs},
             m1 \in {<<R("A", <<1, -1>>)>>, <<R("A", <<0, 2>>), R("B", <<0, 1>>)>>}}

\* channels and switches
ChanElements == {R("A", One), R("B", <<0, -1>>), T("t", One), R("A", <<1, 2>>)}
WithSwitches == IF Deep THEN {<<a, b>> : a \in ChanElements, b \in ChanElements} \cup {<<a, SW, b>> : a \in ChanElements, b \in ChanElements}
                   \cup {<<SW, a, b>> : a \in ChanElements, b \in ChanElements} \cup {<<SW, a, SW, b>> : a \in ChanElements, b \in ChanElements}
                   \cup {<<a, SW, b, SW, c>> : a \in ChanElements, b \in ChanElements, c \in {R("A", One)}}
                   \cup {<<a, SW, b, SW>> : a \in ChanElements, b \in ChanElements}
                ELSE {<<a, b>> : a \in ChanElements, b \in ChanElements} \cup {<<a, SW, b>> : a \in ChanElements, b \in ChanElements}
                   \cup {<<SW, a, SW, b>> : a \in {R("A", One), T("t", One)}, b \in ChanElements}
                   \cup {<<a, SW, b, SW, R("A", One)>> : a \in {R("A", One)}, b \in {R("B", <<0, -1>>), T("t", One)}}
ChanSets == {<<[ca |-> Tok(<< <<R("SP", One)>> >>)], <<"ca">> >>,
             <<[ca |-> Tok(<< <<R("SP", <<1, -1>>)>> >>)], <<"ca">> >>,
             <<[ca |-> Tok(<< <<R("SP", One), R("US", One)>> >>), cb |-> Tok(<< <<R("SP", One)>> >>)], <<"ca", "cb">> >>}
UChans == {GC(NoPat, [A |-> C("a"), B |-> C("b"), SP |-> C(" "), US |-> C("_")],
              [root |-> Tok(<< l >>), t |-> Tok(<< m >>)], ch[1], ch[2]) :
             l \in WithSwitches, ch \in ChanSets,
             m \in {<<R("B", One)>>, <<R("B", One), R("B", One)>>} \cup (IF Deep THEN {<<R("B", One), SW, R("B", One)>>, <<SW, R("B", One)>>} ELSE {})}

\* recursion: one token that refers to itself, directly or through another
RecLines == {<<T("root", c), R("B", One)>> : c \in {One, <<0, 1>>, <<1, -1>>}}
       \cup {<<R("A", One), T("root", c), R("B", d)>> : c \in {One, <<0, 1>>, <<0, -1>>, <<1, 2>>}, d \in {One, <<0, 1>>}}
       \cup {<<R("A", One), T("root", c)>> : c \in {One, <<0, 1>>, <<0, -1>>, <<2, 2>>}}
       \cup {<<T("u", c), R("B", One)>> : c \in {One, <<1, -1>>}} \cup {<<R("A", One), T("u", c)>> : c \in {One, <<0, 1>>}}
       \cup {<<T("root", c), T("root", d)>> : c \in {One, <<0, 1>>}, d \in {One, <<0, -1>>}}
RecU == {<< <<T("root", One), R("A", One)>> >>, << <<R("B", One), T("root", <<0, 1>>)>> >>, << <<T("u", One), R("A", One)>>, <<R("B", One)>> >>,
         << <<R("A", One), T("root", One)>>, <<R("B", One)>> >>}
URec == {G(NoPat, ABC, [root |-> Tok(ls), u |-> Tok(u)]) :
           ls \in {<<l, <<x>> >> : l \in RecLines, x \in {R("A", One), R("X", One)}} \cup {<< <<x>>, l>> : l \in RecLines, x \in {R("A", One), R("B", One)}}
                  \cup (IF Deep THEN {<<l, m, <<R("A", One)>> >> : l \in RecLines, m \in RecLines} ELSE {}),
           u \in RecU}

\* recursion and channels: the switches of the lines on the way to a recursive reference
ChanRecLines == {<<R("A", One), T("t", c)>> : c \in {One, <<0, 1>>, <<1, 2>>}} \cup {<<R("A", One), SW, T("t", One)>>, <<SW, R("A", One), T("t", One)>>, <<R("A", One), T("t", One), R("B", <<0, 1>>)>>,
                 <<T("t", One), R("A", One)>>, <<SW, R("A", One), SW, T("t", One)>>, <<R("A", One), T("root", One)>>, <<SW, R("B", One), T("root", One)>>}
UChanRec == {GC(NoPat, [A |-> C("a"), B |-> C("b"), SP |-> C(" ")], [root |-> Tok(<< l >>), t |-> Tok(ls)], [ca |-> Tok(<< <<R("SP", One)>> >>)], <<"ca">>) :
               l \in {<<SW, T("t", One), R("B", One)>>, <<T("t", One), R("B", <<0, -1>>)>>, <<SW, T("t", One), SW, R("B", <<0, 1>>)>>, <<R("B", <<0, 1>>), SW, T("t", <<1, -1>>)>>},
               ls \in {<<m, <<R("A", One)>> >> : m \in ChanRecLines} \cup {<< <<R("B", One)>>, m>> : m \in ChanRecLines}
                      \cup (IF Deep THEN {<<m, n, <<R("A", One)>> >> : m \in ChanRecLines, n \in ChanRecLines} ELSE {})}

\* what channels are made of: switches, tokens, several lines, not blocks
InChannel == {<<R("SP", One)>>, <<R("SP", One), SW, R("US", One)>>, <<SW, R("SP", One)>>, <<SW, R("SP", <<1, -1>>), R("US", <<0, 1>>)>>, <<R("US", One), T("u", One)>>, <<T("u", One)>>,
              <<SW, T("u", <<0, 1>>), R("US", One)>>, <<R("SP", One), SW, T("t", <<0, 1>>)>>}
PlainChannel == {<<R("US", One)>>, <<R("US", One), SW>>, <<R("SP", One), R("US", One)>>}
UChanIn == {GC(NoPat, [A |-> C("a"), B |-> C("b"), SP |-> C(" "), US |-> C("_")],
               [root |-> Tok(<< l >>), t |-> Tok(<< <<R("B", One), R("A", <<0, 1>>)>> >>), u |-> Tok(<< <<R("US", One), SW, R("SP", One)>>, <<R("SP", One), T("u", One)>> >>)],
               [ca |-> Tok(<< m >>), cb |-> [must |-> << n >>, not |-> x]], <<"ca", "cb">>) :
              l \in {<<R("A", One), T("t", <<0, 1>>)>>, <<SW, R("A", <<1, 2>>), SW, R("B", One)>>}, m \in InChannel, n \in (IF Deep THEN PlainChannel \cup {<<SW, R("SP", One)>>} ELSE PlainChannel),
              x \in {<<>>} \cup (IF Deep THEN {<< <<R("SP", <<2, 2>>)>> >>, << <<R("US", One)>> >>} ELSE {})}

Universe == CASE Profile = "patterns" -> UPatterns
              [] Profile = "rules" -> URules
              [] Profile = "cards" -> UCards
              [] Profile = "alts" -> UAlts
              [] Profile = "nots" -> UNots
              [] Profile = "specs" -> USpecs
              [] Profile = "chans" -> UChans
              [] Profile = "rec" -> URec
              [] Profile = "chanrec" -> UChanRec
              [] Profile = "chanin" -> UChanIn

AB == {"a", "b"}
Scripts == CASE Profile = "patterns" -> StrUpTo(AB, IF Deep THEN 5 ELSE 4)
             [] Profile = "rules" -> StrUpTo(AB, IF Deep THEN 6 ELSE 5)
             [] Profile = "cards" -> StrUpTo(AB, 4) \cup {"aaaaa", "aaaab", "aabbb", "aaabbb", "aaaabb", "aaaaaa", "aaabbbb"}
             [] Profile = "alts" -> StrUpTo(AB, 4)
             [] Profile = "nots" -> StrUpTo(AB, 4)
             [] Profile = "specs" -> StrUpTo(AB, IF Deep THEN 5 ELSE 4)
             [] Profile = "chans" -> {s \in StrUpTo({"a", "b", " ", "_"}, IF Deep THEN 5 ELSE 4) : CharAt(s, 1) # "_" /\ (Len(s) < 4 \/ CharAt(s, 1) \in {"a", " "})}
                                     \cup {"a b a", " a  b  a", "a _b", "a _ b a", "a b b a", "a bb  a"}
             [] Profile = "rec" -> StrUpTo(AB, IF Deep THEN 6 ELSE 5)
             [] Profile = "chanin" -> {x \o "a" \o y \o "b" : x \in {"", " ", "_ "}, y \in StrUpTo({" ", "_"}, IF Deep THEN 3 ELSE 2) \cup {""}} \cup {"a ba", "a_ b a"}
             [] Profile = "chanrec" -> {s \in StrUpTo({"a", "b", " "}, 5) : CharAt(s, 1) # " "} \cup {" aab", " a a b", "a a ab", "aa a b", "a a a b"}

-----------------------------------------------------------------------------
(* the properties of the semantics *)
RECURSIVE Leaves(_)
Leaves(ms) == IF ms = <<>> THEN ""
              ELSE LET h == ms[1] IN
                   (IF "r" \in DOMAIN h THEN h.c
                    ELSE LET F[j \in 0..Len(h.m)] == IF j = 0 THEN "" ELSE F[j-1] \o Leaves(h.m[j].m) IN F[Len(h.m)])
                   \o Leaves(Tail(ms))

\* nothing is lost or invented: the leaves are the text, which starts the script
Lossless(s, o) == o.v = "ok" => (Leaves(o.t.m) = o.d /\ StartsWith(s, o.d) /\ o.d # "")

LineOf(g, l, s) == LineFrom(g, "tok", l, {}, s, TRUE, Guards(g), 1, [ch |-> TRUE, nx |-> TRUE, d |-> "", ms |-> <<>>, cn |-> <<>>, n |-> 0])
\* the chosen alternative is the first of the longest ones
Longest(g, s, o) ==
  LET must == g.tok[g.root].must
      len(j) == LET m == LineOf(g, must[j], s) IN IF IsOK(m) THEN Len(m.d) ELSE 0
  IN o.v = "ok" => /\ len(o.t.l + 1) = Len(o.d)
                   /\ \A j \in 1..Len(must) : len(j) <= Len(o.d) /\ (j < o.t.l + 1 => len(j) < Len(o.d))
\* it is accepted if and only if a mandatory line matches and no line of the not block does
Verdict(g, s, o) ==
  LET some(ls) == \E j \in 1..Len(ls) : LET m == LineOf(g, ls[j], s) IN IsOK(m) /\ Len(m.d) > 0
  IN o.v = "ok" <=> (some(g.tok[g.root].must) /\ ~some(g.tok[g.root].not))

\* text that follows what is matched never turns an accepted script into a refused one
\* when every maximum is unbounded or reached... only the weaker fact holds in general:
\* parsing exactly the matched text of a grammar without recursion, not block or channel accepts it
Plain(g) == DOMAIN g.chan = {} /\ \A n \in DOMAIN g.tok : g.tok[n].not = <<>>

UniverseSeq == SetToSeq(Universe)
Shards == 64

VARIABLES g, shard
Init == shard \in 1..Shards /\ g = <<>>
Next == /\ g = <<>>
        /\ UNCHANGED shard
        /\ \E j \in {i \in 1..Len(UniverseSeq) : i % Shards = shard - 1} : g' = UniverseSeq[j]

Outcomes == TLCEval([s \in Scripts |-> Outcome(g, s)])
Sound ==
  g = <<>> \/
  LET os == Outcomes IN
  /\ WellFormed(g)
  /\ \A s \in Scripts : Lossless(s, os[s]) /\ Longest(g, s, os[s]) /\ Verdict(g, s, os[s])
  /\ PrintT("CASE " \o ToJson([g |-> g, o |-> os]))
=============================================================================
