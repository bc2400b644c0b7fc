----------------------------- MODULE LoadingMC ------------------------------
(* A small source and every way to damage or change it at one place, or at  *)
(* two: what each has to mean.                                              *)
EXTENDS Loading, Json, IOUtils

El(n, card) == [k |-> "r", n |-> n, card |-> card]
Tk(n, card, sp) == [k |-> "t", n |-> n, card |-> card, sp |-> sp]
Decl(n, must, not) == [n |-> n, must |-> must, not |-> not, loose |-> FALSE]

Base ==
  [groups |-> << [n |-> "$LOW", o |-> <<"a", "ab">>], [n |-> "$DIGIT", o |-> <<"1", "2">>] >>,
   series |-> << [n |-> "WORD", g |-> <<"$LOW", "$LOW">>], [n |-> "NUM", g |-> <<"$DIGIT">>] >>,
   pats |-> << [n |-> "number", c |-> << [rev |-> FALSE, s |-> "NUM"] >>], [n |-> "words", c |-> << [rev |-> FALSE, s |-> "WORD"] >>] >>,
   rules |-> << [n |-> "N", k |-> "p", p |-> <<"number", "words">>, card |-> "{1,2}"], [n |-> "EQ", k |-> "c", c |-> "="], [n |-> "SP", k |-> "c", c |-> " "] >>,
   toks |-> << Decl("root", << <<Tk("part", "", <<>>), El("EQ", ""), Tk("part", "+", << [k |-> "r", n |-> "N", card |-> "{1,3}"] >>)>> >>, <<>>),
               Decl("part", << <<El("N", "?"), Tk("low", "*", <<>>)>>, <<El("N", "{2}")>> >>, << <<El("EQ", "{2,}")>> >>),
               Decl("low", << <<El("EQ", ""), [k |-> "sw"], El("N", "")>> >>, <<>>),
               Decl("spare", << <<El("EQ", "")>>, <<El("N", ""), Tk("spare", "?", <<>>)>> >>, <<>>) >>,
   chans |-> << Decl("space", << <<El("SP", "")>> >>, <<>>) >>, root |-> "root"]

Put2(src, what, j, f, v) == [src EXCEPT ![what][j][f] = v]
Without(q, n) == SelectSeq(q, LAMBDA d : d.n # n)
InLine(src, ts, j, part, l, e, v) ==      \* replaces an element of a line
  [src EXCEPT ![ts][j][part][l][e] = v]

\* the names of the edits
Edits == <<"otherGroup", "otherSerie", "otherPattern", "unknownGroup", "unknownSerie", "unknownPattern", "quote", "hash", "exact", "any", "cardRule", "cardNone",
           "unknownRule", "cardElement", "unknownRuleInNot", "unknownToken", "unknownTokenInNot", "unknownSpecifierRule", "unknownSpecifierToken", "cardSpecifier",
           "looseNot", "aloneNot", "aloneSwitch", "aloneWithOther", "aloneRoot", "emptyLine", "emptyNot", "oneLine",
           "sameRule", "sameToken", "sameChannel", "unknownRuleInSpare", "unknownTokenInSpare", "unknownTokenInChannel", "tokenInChannel", "aloneSpare", "cardSpare", "cardChannel", "looseSpare",
           "unknownRoot", "otherRoot", "lostGroup", "lostSerie", "lostPattern", "lostRule", "lostRuleOfChannel", "lostToken", "lostUnused", "noChannels", "reverse">>

Do(src, x) ==
  CASE x = "noChannels" -> [src EXCEPT !.chans = <<>>]
    [] x = "emptyNot" -> [src EXCEPT !.toks[3].not = << <<>> >>]
    [] x = "oneLine" -> [src EXCEPT !.toks[3].must = << <<El("EQ", "")>> >>]
    [] x = "sameRule" -> [src EXCEPT !.rules = Append(@, [n |-> "EQ", k |-> "c", c |-> "!"])]
    [] x = "sameToken" -> [src EXCEPT !.toks = Append(@, Decl("low", << <<El("EQ", "")>> >>, <<>>))]
    [] x = "sameChannel" -> [src EXCEPT !.chans = Append(@, Decl("space", << <<El("SP", "")>> >>, <<>>))]
    [] x = "lostGroup" -> [src EXCEPT !.groups = Without(@, "$LOW")]
    [] x = "lostSerie" -> [src EXCEPT !.series = Without(@, "NUM")]
    [] x = "lostPattern" -> [src EXCEPT !.pats = Without(@, "words")]
    [] x = "lostRule" -> [src EXCEPT !.rules = Without(@, "EQ")]
    [] x = "lostRuleOfChannel" -> [src EXCEPT !.rules = Without(@, "SP")]
    [] x = "lostToken" -> [src EXCEPT !.toks = Without(@, "low")]
    [] x = "lostUnused" -> [src EXCEPT !.toks = Without(@, "spare")]
    [] x = "otherGroup" -> Put2(src, "series", 1, "g", <<"$DIGIT", "$LOW">>)
    [] x = "otherSerie" -> Put2(src, "pats", 2, "c", << [rev |-> TRUE, s |-> "NUM"], [rev |-> FALSE, s |-> "NUM"] >>)
    [] x = "otherPattern" -> Put2(src, "rules", 1, "p", <<"words">>)
    [] x = "unknownGroup" -> Put2(src, "series", 2, "g", <<"$DIGIT", "$MISSING">>)
    [] x = "unknownSerie" -> Put2(src, "pats", 1, "c", << [rev |-> TRUE, s |-> "MISSING"] >>)
    [] x = "unknownPattern" -> Put2(src, "rules", 1, "p", <<"words", "missing">>)
    [] x = "unknownRule" -> InLine(src, "toks", 1, "must", 1, 2, El("MISSING", ""))
    [] x = "unknownRuleInNot" -> InLine(src, "toks", 2, "not", 1, 1, El("MISSING", "?"))
    [] x = "unknownRuleInSpare" -> [src EXCEPT !.toks = Append(@, Decl("spareTwo", << <<El("MISSING", "")>> >>, <<>>))]
    [] x = "unknownToken" -> InLine(src, "toks", 1, "must", 1, 1, Tk("missing", "?", <<>>))
    [] x = "unknownTokenInNot" -> InLine(src, "toks", 2, "not", 1, 1, Tk("missing", "", <<>>))
    [] x = "unknownTokenInSpare" -> [src EXCEPT !.toks = Append(@, Decl("spareThree", << <<El("EQ", ""), Tk("missing", "*", <<>>)>> >>, <<>>))]
    [] x = "unknownTokenInChannel" -> [src EXCEPT !.chans = Append(@, Decl("other", << <<El("SP", ""), Tk("space", "?", <<>>)>> >>, <<>>))]
    [] x = "tokenInChannel" -> [src EXCEPT !.chans = Append(@, Decl("joined", << <<El("SP", ""), Tk("low", "", <<>>)>> >>, <<>>))]
    [] x = "unknownSpecifierRule" -> InLine(src, "toks", 1, "must", 1, 3, Tk("part", "+", << [k |-> "r", n |-> "MISSING", card |-> "{0,1}"] >>))
    [] x = "unknownSpecifierToken" -> InLine(src, "toks", 1, "must", 1, 3, Tk("part", "+", << [k |-> "t", n |-> "missing", card |-> "{0,1}"] >>))
    [] x = "unknownRoot" -> [src EXCEPT !.root = "missing"]
    [] x = "otherRoot" -> [src EXCEPT !.root = "spare"]
    [] x = "aloneRoot" -> [src EXCEPT !.toks[1].must = Append(@, <<Tk("root", "", <<>>)>>)]
    [] x = "aloneSpare" -> [src EXCEPT !.toks = Append(@, Decl("spareFour", << <<El("EQ", "")>>, <<Tk("spareFour", "+", <<>>)>> >>, <<>>))]
    [] x = "aloneSwitch" -> [src EXCEPT !.toks[2].must = <<  <<[k |-> "sw"], Tk("part", "?", <<>>), [k |-> "sw"]>> >> \o @]
    [] x = "aloneNot" -> [src EXCEPT !.toks[2].not = Append(@, <<Tk("part", "", <<>>)>>)]
    [] x = "aloneWithOther" -> [src EXCEPT !.toks[2].must = Append(@, <<Tk("part", "?", <<>>), El("EQ", "{3}")>>)]
    [] x = "cardRule" -> Put2(src, "rules", 1, "card", "{2,1}")
    [] x = "cardElement" -> InLine(src, "toks", 1, "must", 1, 2, El("EQ", "{0}"))
    [] x = "cardSpecifier" -> InLine(src, "toks", 1, "must", 1, 3, Tk("part", "+", << [k |-> "r", n |-> "N", card |-> "{1,2,3}"] >>))
    [] x = "cardSpare" -> [src EXCEPT !.toks = Append(@, Decl("spareFive", << <<El("EQ", "{x}")>> >>, <<>>))]
    [] x = "cardChannel" -> [src EXCEPT !.chans = Append(@, Decl("more", << <<El("SP", "{,1}")>> >>, <<>>))]
    [] x = "cardNone" -> Put2(src, "rules", 1, "card", "")
    [] x = "emptyLine" -> [src EXCEPT !.toks[3].must = Append(@, <<>>)]
    [] x = "looseNot" -> [src EXCEPT !.toks[2].loose = TRUE]
    [] x = "looseSpare" -> [src EXCEPT !.toks = Append(@, [Decl("spareSix", << <<El("EQ", "")>> >>, << <<El("SP", "")>> >>) EXCEPT !.loose = TRUE])]
    [] x = "reverse" -> Reversed(src)
    [] x = "quote" -> [src EXCEPT !.groups[1].o = <<"\"", "a\"b", "b">>]
    [] x = "hash" -> [src EXCEPT !.rules[2] = [n |-> "EQ", k |-> "c", c |-> "[#: |]"]]
    [] x = "exact" -> Put2(src, "rules", 1, "card", "{2}")
    [] x = "any" -> Put2(src, "rules", 1, "card", "*")

Scripts == <<"1=1", "a=12", "1 =21=1", "abab=1=1=1", "=1=1", "11=1", "1==1=2", "1= 12", "1=1 1=2", "11=1=2==", "\"b=1", "a\"b\"=11", "1[#: |]1[#: |]2">>

Depth == IF IOEnv.TIER = "thorough" THEN 3 ELSE 2

VARIABLES src, done, last
Init == src = Base /\ done = <<>> /\ last = 0
Next == /\ Len(done) < Depth
        /\ \E x \in (last + 1)..Len(Edits) : src' = Do(src, Edits[x]) /\ done' = Append(done, Edits[x]) /\ last' = x

Sound ==
  /\ PrintT("CASE " \o ToJson([e |-> done, src |-> src, r |-> SetToSeq(Reasons(src)), a |-> [j \in 1..Len(Scripts) |-> [s |-> Scripts[j], o |-> Answer(src, Scripts[j])]]]))
  \* the order of the declarations never matters, and what is not refused means a grammar
  /\ Reasons(Reversed(src)) = Reasons(src)
  /\ ~Refused(src) => /\ Load(Reversed(src)) = Load(src)
                      /\ WellFormed(Load(src))
=============================================================================
