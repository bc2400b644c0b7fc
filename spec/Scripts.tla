------------------------------ MODULE Scripts -------------------------------
(***************************************************************************)
(* The base scripting language: what a program is, how it is written and   *)
(* what the instance that the parsers build of its text must say.          *)
(*                                                                         *)
(*   program     = [has, vars: Seq(header), ins: Seq(instruction)]         *)
(*   header      = [in, must, decl, key]                                   *)
(*   decl        = [type: [depth, flags], name]                            *)
(*   instruction = [k "assign", to: [k, names], of: Seq(assignable)],      *)
(*                 [k "declare", decl], [k "calllog", of: assignable],     *)
(*                 [k "if", cond: operation, has, ins],                    *)
(*                 [k "for", index, value, over, has, ins],                *)
(*                 [k "go", to], [k "incr", name, by]                      *)
(*   assignable  = [k "value", v], [k "operation", o], [k "list", l: list],*)
(*                 [k "slice", l: list, from, has, to],                    *)
(*                 [k "append", l: list, e: assignable],                   *)
(*                 [k "extract", l: assignable], [k "fetch", l, i],        *)
(*                 [k "var", name] (what is iterated or fetched from)      *)
(*   list        = [k "of", l: Seq(assignable)], [k "var", name]           *)
(*   operation   = [a: element, has: BOOLEAN, op, b: element]              *)
(*   element     = [k "bool", v], [k "var", name], [k "value", v],         *)
(*                 [k "operation", o], [k "callNull", o]                   *)
(*   value       = a literal [lit "number", neg, int, frac], [lit "bool",  *)
(*                 b] or [lit "string", s]; or, in an instance,            *)
(*                 [type, v: "the Go type and the value"]                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

-----------------------------------------------------------------------------
(* numbers                                                                 *)
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE NoZeros(_), NoEndZeros(_), DigitsLess(_, _)
NoZeros(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN NoZeros(SubSeq(s, 2, Len(s))) ELSE s
NoEndZeros(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN NoEndZeros(SubSeq(s, 1, Len(s) - 1)) ELSE s
Digit(c) == (CHOOSE k \in 1..10 : Ch("0123456789", k) = c) - 1
\* of the same length
DigitsLess(a, b) == IF a = "" THEN FALSE
                    ELSE IF Ch(a, 1) = Ch(b, 1) THEN DigitsLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
                    ELSE Digit(Ch(a, 1)) < Digit(Ch(b, 1))
AtMost(a, b) == LET x == NoZeros(a) IN Len(x) < Len(b) \/ (Len(x) = Len(b) /\ ~DigitsLess(b, x))
MaxUnsigned(bits) == CASE bits = 8 -> "255" [] bits = 16 -> "65535" [] bits = 32 -> "4294967295" [] OTHER -> "18446744073709551615"
MinSigned(bits) == CASE bits = 8 -> "128" [] bits = 16 -> "32768" [] bits = 32 -> "2147483648" [] OTHER -> "9223372036854775808"

\* the numbers that the machine words of the parsers hold
Fits(lit, bits) == lit.lit # "number" \/ lit.frac # "" \/ AtMost(lit.int, IF lit.neg THEN MinSigned(bits) ELSE MaxUnsigned(bits))

FloatText(lit) == LET f == NoEndZeros(lit.frac) IN NoZeros(lit.int) \o (IF f = "" THEN "" ELSE "." \o f)
Typ(flags) == [depth |-> 0, flags |-> flags]
Val(x) ==
  IF "lit" \notin DOMAIN x THEN x
  ELSE CASE x.lit = "bool" -> [type |-> Typ("bool"), v |-> IF x.b THEN "bool true" ELSE "bool false"]
         [] x.lit = "string" -> [type |-> Typ("string"), v |-> "string " \o x.s]
         [] x.frac # "" -> [type |-> Typ("float"), v |-> "float64 " \o (IF x.neg THEN "-" ELSE "") \o FloatText(x)]
         [] x.neg -> [type |-> Typ("integer"), v |-> "int " \o (IF NoZeros(x.int) = "0" THEN "" ELSE "-") \o NoZeros(x.int)]
         [] OTHER -> [type |-> Typ("unsigned+integer"), v |-> "uint " \o NoZeros(x.int)]
Bool(b) == [type |-> Typ("bool"), v |-> IF b THEN "bool true" ELSE "bool false"]

-----------------------------------------------------------------------------
(* the meaning of a program, and of an instance: an operation that is made *)
(* of one element is that element, parentheses are not kept, and a         *)
(* variable is a variable wherever it is                                   *)
Unknown(x) == [k |-> "unknown"]
RECURSIVE Op(_), El(_), Single(_), Instructions(_), Instruction(_)
IsLone(o) == "op" \notin DOMAIN o
Op(o) == IF ~o.has THEN (IF o.a.k = "operation" THEN Op(o.a.o) ELSE [a |-> El(o.a)])
         ELSE [a |-> El(o.a), op |-> o.op, b |-> El(o.b)]
El(e) == CASE e.k = "bool" -> [k |-> "value", v |-> Bool(e.v)]
           [] e.k = "var" -> [k |-> "var", name |-> e.name]
           [] e.k = "value" -> [k |-> "value", v |-> Val(e.v)]
           [] e.k = "callNull" -> [k |-> "callNull", o |-> Op(e.o)]
           [] e.k = "operation" -> LET x == Op(e.o) IN IF IsLone(x) THEN x.a ELSE [k |-> "operation", o |-> x]
           [] OTHER -> Unknown(e)
Index(i) == CASE i.k = "value" -> [k |-> "value", v |-> Val(i.v)] [] i.k = "var" -> [k |-> "var", name |-> i.name] [] OTHER -> Unknown(i)
List(l) == CASE l.k = "of" -> [k |-> "of", of |-> [j \in DOMAIN l.l |-> Single(l.l[j])]]
             [] l.k = "var" -> [k |-> "var", name |-> l.name]
             [] OTHER -> Unknown(l)
Single(s) ==
  CASE s.k = "value" -> [k |-> "value", v |-> Val(s.v)]
    [] s.k = "operation" -> El(s)
    [] s.k = "list" -> List(s.l)
    [] s.k = "var" -> [k |-> "var", name |-> s.name]
    [] s.k = "slice" -> [k |-> "slice", l |-> List(s.l), by |-> IF s.has THEN <<Index(s.from), Index(s.to)>> ELSE <<Index(s.from)>>]
    [] s.k = "append" -> [k |-> "append", l |-> List(s.l), e |-> Single(s.e)]
    [] s.k = "extract" -> [k |-> "extract", l |-> Single(s.l)]
    [] s.k = "fetch" -> [k |-> "fetch", l |-> Single(s.l), i |-> Index(s.i)]
    [] OTHER -> Unknown(s)
Decl(d) == [type |-> d.type, name |-> d.name]
Name(n) == CASE n.k = "declare" -> [k |-> "declare", decl |-> Decl(n.decl)]
             [] n.k = "var" -> [k |-> "var", name |-> n.name]
             [] n.k = "skip" -> [k |-> "skip"]
             [] OTHER -> Unknown(n)
Instruction(i) ==
  CASE i.k = "assign" -> [k |-> "assign", kind |-> i.to.k, to |-> [j \in DOMAIN i.to.names |-> Name(i.to.names[j])], of |-> [j \in DOMAIN i.of |-> Single(i.of[j])]]
    [] i.k = "declare" -> [k |-> "declare", decl |-> Decl(i.decl)]
    [] i.k = "if" -> [k |-> "if", cond |-> Op(i.cond), body |-> i.has, ins |-> Instructions(i.ins)]
    [] i.k = "for" -> [k |-> "for", names |-> <<Name(i.index), Name(i.value)>>, over |-> Single(i.over), body |-> i.has, ins |-> Instructions(i.ins)]
    [] i.k = "calllog" -> [k |-> "calllog", log |-> Single(i.of)]
    [] i.k = "go" -> [k |-> "go", where |-> i.to]
    [] i.k = "incr" -> [k |-> "incr", name |-> i.name, step |-> Val(i.by)]
    [] OTHER -> Unknown(i)
Instructions(is) == [j \in DOMAIN is |-> Instruction(is[j])]
Header(h) == [in |-> h.in, must |-> h.must, decl |-> Decl(h.decl), key |-> h.key]
Meaning(p) == [has |-> p.has, vars |-> [j \in DOMAIN p.vars |-> Header(p.vars[j])], ins |-> Instructions(p.ins)]

-----------------------------------------------------------------------------
(* how a program is written: its lexemes                                   *)
RECURSIVE Cat(_), Spread(_, _), TypeLex(_, _)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
Spread(ss, sep) == IF Len(ss) <= 1 THEN Cat(ss) ELSE ss[1] \o sep \o Spread(Tail(ss), sep)
Word(flags) == CASE flags = "unsigned+integer" -> "uint" [] flags = "integer" -> "int" [] OTHER -> flags
TypeLex(depth, flags) == IF depth = 0 THEN <<Word(flags)>> ELSE <<"list", "<">> \o TypeLex(depth - 1, flags) \o <<">">>
DeclLex(d) == TypeLex(d.type.depth, d.type.flags) \o <<d.name>>

\* a number of an instance is written as the shortest literal of its value
Prefixed(v, p) == Len(v) >= Len(p) /\ SubSeq(v, 1, Len(p)) = p
After(v, p) == SubSeq(v, Len(p) + 1, Len(v))
HasDot(s) == \E i \in 1..Len(s) : Ch(s, i) = "."
Dot(s) == CHOOSE i \in 1..Len(s) : Ch(s, i) = "."
Signed(s) == IF Prefixed(s, "-") THEN <<"-", After(s, "-")>> ELSE <<s>>
FloatLex(s) == IF Prefixed(s, "-") THEN <<"-">> \o (LET t == After(s, "-") IN IF HasDot(t) THEN <<SubSeq(t, 1, Dot(t) - 1), ".", SubSeq(t, Dot(t) + 1, Len(t))>> ELSE <<t, ".", "0">>)
               ELSE IF HasDot(s) THEN <<SubSeq(s, 1, Dot(s) - 1), ".", SubSeq(s, Dot(s) + 1, Len(s))>> ELSE <<s, ".", "0">>
ValLex(x) ==
  IF "lit" \in DOMAIN x
  THEN CASE x.lit = "bool" -> <<IF x.b THEN "true" ELSE "false">>
         [] x.lit = "string" -> <<"\"" \o x.s \o "\"">>
         [] OTHER -> (IF x.neg THEN <<"-">> ELSE <<>>) \o <<x.int>> \o (IF x.frac # "" THEN <<".", x.frac>> ELSE <<>>)
  ELSE CASE Prefixed(x.v, "bool ") -> <<After(x.v, "bool ")>>
         [] Prefixed(x.v, "string ") -> <<"\"" \o After(x.v, "string ") \o "\"">>
         [] Prefixed(x.v, "uint ") -> <<After(x.v, "uint ")>>
         [] x.v = "int 0" -> <<"-", "0">>
         [] Prefixed(x.v, "int ") -> Signed(After(x.v, "int "))
         [] Prefixed(x.v, "float64 ") -> FloatLex(After(x.v, "float64 "))
         [] OTHER -> <<"?" \o x.v>>

Operators == [x \in {"arithmetic +", "arithmetic -", "arithmetic *", "arithmetic /", "logical &&", "logical ||", "relational less", "relational greater",
                     "relational equal less", "relational equal greater", "relational not equal", "relational equal"} |->
                CASE x = "arithmetic +" -> <<"+">> [] x = "arithmetic -" -> <<"-">> [] x = "arithmetic *" -> <<"*">> [] x = "arithmetic /" -> <<"/">>
                  [] x = "logical &&" -> <<"&&">> [] x = "logical ||" -> <<"||">>
                  [] x = "relational less" -> <<"<">> [] x = "relational greater" -> <<">">>
                  [] x = "relational equal less" -> <<"<", "=">> [] x = "relational equal greater" -> <<">", "=">>
                  [] x = "relational not equal" -> <<"!", "=">> [] OTHER -> <<"==">>]
OperatorLex(op) == IF op \in DOMAIN Operators THEN Operators[op] ELSE <<"?" \o op>>

RECURSIVE OpLex(_), ElLex(_), SingleLex(_), ListLex(_), InsLex(_), InssLex(_)
Paren(s) == <<"(">> \o s \o <<")">>
OpLex(o) == ElLex(o.a) \o (IF o.has THEN OperatorLex(o.op) \o ElLex(o.b) ELSE <<>>)
ElLex(e) == CASE e.k = "bool" -> <<IF e.v THEN "true" ELSE "false">>
              [] e.k = "var" -> <<e.name>>
              [] e.k = "value" -> ValLex(e.v)
              [] e.k = "callNull" -> <<"isNull">> \o Paren(OpLex(e.o))
              [] e.k = "operation" -> Paren(OpLex(e.o))
              [] OTHER -> <<"?">>
IndexLex(i) == CASE i.k = "value" -> ValLex(i.v) [] i.k = "var" -> <<i.name>> [] OTHER -> <<"?">>
ListLex(l) == CASE l.k = "of" -> <<"[">> \o Spread([j \in DOMAIN l.l |-> SingleLex(l.l[j])], <<",">>) \o <<"]">>
                [] l.k = "var" -> <<l.name>>
                [] OTHER -> <<"?">>
Kept(s) == IF s.k = "append" THEN Paren(SingleLex(s)) ELSE SingleLex(s)
SingleLex(s) ==
  CASE s.k = "value" -> ValLex(s.v)
    [] s.k = "operation" -> OpLex(s.o)
    [] s.k = "list" -> ListLex(s.l)
    [] s.k = "var" -> <<s.name>>
    [] s.k = "slice" -> ListLex(s.l) \o <<"[">> \o IndexLex(s.from) \o <<":">> \o (IF s.has THEN IndexLex(s.to) ELSE <<>>) \o <<"]">>
    [] s.k = "append" -> <<"append">> \o ListLex(s.l) \o <<",">> \o SingleLex(s.e)
    [] s.k = "extract" -> Kept(s.l) \o <<"...">>
    [] s.k = "fetch" -> Kept(s.l) \o <<"[">> \o IndexLex(s.i) \o <<"]">>
    [] OTHER -> <<"?">>
NameLex(n) == CASE n.k = "declare" -> DeclLex(n.decl) [] n.k = "var" -> <<n.name>> [] n.k = "skip" -> <<"_">> [] OTHER -> <<"?">>
Body(i) == <<"{">> \o InssLex(i.ins) \o <<"}">>
InsLex(i) ==
  CASE i.k = "assign" -> Spread([j \in DOMAIN i.to.names |-> NameLex(i.to.names[j])], <<",">>)
                         \o (IF i.to.k = "first" THEN <<":", "=">> ELSE <<"=">>)
                         \o Spread([j \in DOMAIN i.of |-> SingleLex(i.of[j])], <<",">>)
    [] i.k = "declare" -> DeclLex(i.decl)
    [] i.k = "if" -> <<"if">> \o OpLex(i.cond) \o Body(i)
    [] i.k = "for" -> <<"for">> \o NameLex(i.index) \o <<",">> \o NameLex(i.value) \o <<":", "=">> \o SingleLex(i.over) \o Body(i)
    [] i.k = "calllog" -> <<"log">> \o Paren(SingleLex(i.of))
    [] i.k = "go" -> <<i.to>>
    [] i.k = "incr" -> <<i.name>> \o (IF Val(i.by).v = "int 1" THEN <<"+", "+">> ELSE <<"-", "-">>)
    [] OTHER -> <<"?">>
InssLex(is) == Cat([j \in DOMAIN is |-> InsLex(is[j])])
HeaderLex(h) == <<IF h.in THEN "->" ELSE "<-">> \o DeclLex(h.decl) \o <<":", h.key>> \o (IF h.must THEN <<>> ELSE <<"?">>)
Written(p) == Cat([j \in DOMAIN p.vars |-> HeaderLex(p.vars[j])]) \o InssLex(p.ins)

\* the text of lexemes, without spaces and parentheses
RECURSIVE Squeezed(_)
Squeezed(ls) == IF ls = <<>> THEN "" ELSE (IF ls[1] \in {"(", ")"} THEN "" ELSE ls[1]) \o Squeezed(Tail(ls))

-----------------------------------------------------------------------------
(* the numbers of a program, that must fit the words of the parsers        *)
RECURSIVE LitsOp(_), LitsEl(_), LitsSingle(_), LitsIns(_)
Lits(v) == IF "lit" \in DOMAIN v THEN {v} ELSE {}
LitsIndex(i) == IF i.k = "value" THEN Lits(i.v) ELSE {}
LitsOp(o) == LitsEl(o.a) \cup (IF o.has THEN LitsEl(o.b) ELSE {})
LitsEl(e) == CASE e.k = "value" -> Lits(e.v) [] e.k \in {"callNull", "operation"} -> LitsOp(e.o) [] OTHER -> {}
LitsList(l) == IF l.k = "of" THEN UNION {LitsSingle(l.l[j]) : j \in DOMAIN l.l} ELSE {}
LitsSingle(s) ==
  CASE s.k = "value" -> Lits(s.v) [] s.k = "operation" -> LitsOp(s.o) [] s.k = "list" -> LitsList(s.l)
    [] s.k = "slice" -> LitsList(s.l) \cup LitsIndex(s.from) \cup (IF s.has THEN LitsIndex(s.to) ELSE {})
    [] s.k = "append" -> LitsList(s.l) \cup LitsSingle(s.e)
    [] s.k = "extract" -> LitsSingle(s.l)
    [] s.k = "fetch" -> LitsSingle(s.l) \cup LitsIndex(s.i)
    [] OTHER -> {}
LitsInss(is) == UNION {LitsIns(is[j]) : j \in DOMAIN is}
LitsIns(i) ==
  CASE i.k = "assign" -> UNION {LitsSingle(i.of[j]) : j \in DOMAIN i.of}
    [] i.k = "if" -> LitsOp(i.cond) \cup LitsInss(i.ins)
    [] i.k = "for" -> LitsSingle(i.over) \cup LitsInss(i.ins)
    [] i.k = "calllog" -> LitsSingle(i.of)
    [] OTHER -> {}
AllFit(p, bits) == \A l \in LitsInss(p.ins) : Fits(l, bits)
=============================================================================
