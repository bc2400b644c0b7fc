------------------------------- MODULE Ledger -------------------------------
(* The entities of the ledger and their builders. A state holds builders    *)
(* (a kind, and the values set so far) and the instances that were built;   *)
(* the transitions create builders, set values, build instances and read    *)
(* them. The identity of an instance stands for the term of its values: two *)
(* instances of a kind have the same hash if and only if they have the same *)
(* identity.                                                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

\* the fields that define every kind, in the order in which they are hashed
F(name, type) == [n |-> name, t |-> type]
FieldTable ==
  [ring |-> << F("list", "lits") >>,
   rings |-> << F("list", "refs") >>,
   unitcontent |-> << F("amount", "lit"), F("nonce", "lit"), F("activatedOn", "nano"), F("createdOn", "nano") >>,
   unit |-> << F("content", "ref"), F("owner", "ref") >>,
   units |-> << F("list", "refs") >>,
   genesis |-> << F("units", "ref"), F("fees", "lit"), F("createdOn", "nano") >>,
   gprivate |-> << F("unit", "ref"), F("pk", "lit") >>,
   gprivates |-> << F("list", "refs") >>,
   origin |-> << F("genesis", "ref"), F("trx", "ref") >>,
   content |-> << F("owner", "ref"), F("amount", "lit"), F("origin", "ref"), F("external", "lit"), F("createdOn", "sec") >>,
   trx |-> << F("content", "ref"), F("auth", "lit") >>,
   trxs |-> << F("list", "refs") >>,
   secret |-> << F("amount", "lit"), F("nonce", "lit"), F("public", "ref"), F("origin", "ref"), F("sides", "ref") >>,
   secrets |-> << F("list", "refs") >>,
   receipt |-> << F("secret", "ref"), F("sig", "lit") >>,
   private |-> << F("receipt", "ref"), F("pk", "lit") >>,
   privates |-> << F("list", "refs") >>,
   block |-> << F("height", "lit"), F("fees", "ref"), F("trxs", "ref"), F("previous", "lit"), F("createdOn", "sec") >>,
   chain |-> << F("id", "lit"), F("root", "lit"), F("head", "ref"), F("createdOn", "sec") >>,
   idtrx |-> << F("outgoing", "ref"), F("incoming", "ref") >>,
   identity |-> << F("name", "lit"), F("trx", "nested"), F("genesis", "ref") >>,
   peer |-> << F("host", "lit"), F("port", "lit"), F("str", "lit") >>,
   peers |-> << F("list", "nestedlist") >>]
Kinds == DOMAIN FieldTable
Hashless == {"idtrx", "identity", "peer", "peers"}
ListKinds == {"rings", "units", "gprivates", "trxs", "secrets", "privates", "peers"}

\* the values that must be set, and must not be their zero
Mandatory ==
  [k \in Kinds |->
     CASE k = "unitcontent" -> {"amount", "nonce", "activatedOn", "createdOn"}
       [] k = "unit" -> {"content", "owner"}
       [] k = "genesis" -> {"units", "fees", "createdOn"}
       [] k = "gprivate" -> {"unit", "pk"}
       [] k = "content" -> {"owner", "amount", "origin", "external", "createdOn"}
       [] k = "trx" -> {"content", "auth"}
       [] k = "secret" -> {"amount", "nonce", "public"}
       [] k = "receipt" -> {"secret", "sig"}
       [] k = "private" -> {"receipt", "pk"}
       [] k = "block" -> {"height", "fees", "trxs", "createdOn"}
       [] k = "chain" -> {"id", "root", "createdOn"}
       [] k = "identity" -> {"name", "trx"}
       [] k \in ListKinds \cup {"ring"} -> {"list"}
       [] OTHER -> {}]
NonZero == [k \in Kinds |-> CASE k = "unitcontent" -> {"amount", "nonce"} [] k = "secret" -> {"amount", "nonce"} [] k = "block" -> {"height"}
                                [] k = "identity" -> {"name"} [] OTHER -> {}]

Before(a, b) == a.s < b.s \/ (a.s = b.s /\ a.n < b.n)

-----------------------------------------------------------------------------
(* the text of a peer: host, delimiter, port *)
CharAt(s, k) == SubSeq(s, k, k)
StartsAt(s, d, k) == k + Len(d) - 1 <= Len(s) /\ SubSeq(s, k, k + Len(d) - 1) = d
RECURSIVE Split(_, _, _, _)
Split(s, d, from, k) ==
  IF k > Len(s) THEN <<SubSeq(s, from, Len(s))>>
  ELSE IF StartsAt(s, d, k) THEN <<SubSeq(s, from, k - 1)>> \o Split(s, d, k + Len(d), k + Len(d))
  ELSE Split(s, d, from, k + 1)
Digits == "0123456789"
DigitOf(c) == CHOOSE v \in 0..10 : v = 10 \/ CharAt(Digits, v + 1) = c
IsDigit(c) == \E v \in 1..10 : CharAt(Digits, v) = c
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ CharAt(s, 1) = "0" THEN NoZeros(SubSeq(s, 2, Len(s))) ELSE s
MaxPort == "18446744073709551615"
RECURSIVE AtMost(_, _)
AtMost(s, t) == IF s = "" THEN TRUE
                ELSE LET a == DigitOf(CharAt(s, 1)) b == DigitOf(CharAt(t, 1))
                     IN a < b \/ (a = b /\ AtMost(SubSeq(s, 2, Len(s)), SubSeq(t, 2, Len(t))))
IsPort(s) == /\ s # ""
             /\ \A k \in 1..Len(s) : IsDigit(CharAt(s, k))
             /\ LET z == NoZeros(s) IN Len(z) < Len(MaxPort) \/ (Len(z) = Len(MaxPort) /\ AtMost(z, MaxPort))

\* the host and the port of a peer: those of its text when there is one
Get(f, name) == IF name \in DOMAIN f THEN f[name] ELSE ""
PeerOf(cfg, f) ==
  IF Get(f, "str") = "" THEN [ok |-> Get(f, "host") # "" /\ "port" \in DOMAIN f, host |-> Get(f, "host"), port |-> Get(f, "port")]
  ELSE LET parts == Split(f.str, cfg.delim, 1, 1)
       IN IF Len(parts) = 2 /\ IsPort(parts[2]) /\ parts[1] # "" THEN [ok |-> TRUE, host |-> parts[1], port |-> NoZeros(parts[2])]
          ELSE [ok |-> FALSE, host |-> "", port |-> ""]

-----------------------------------------------------------------------------
(* instances *)
Zero(x) == x = "" \/ x = "0"
Valid(kind, cfg, f, es) ==
  /\ Mandatory[kind] \subseteq DOMAIN f
  /\ \A x \in NonZero[kind] : ~Zero(f[x])
  /\ CASE kind = "ring" -> cfg.min <= Len(f.list) /\ Len(f.list) <= cfg.max
       [] kind \in ListKinds -> Len(f.list) > 0
       [] kind = "unitcontent" -> ~Before(f.activatedOn, f.createdOn)
       [] kind = "genesis" -> LET us == es[f.units].f.list
                              IN \A j \in 1..Len(us) : ~Before(es[es[us[j]].f.content].f.createdOn, f.createdOn)
       [] kind = "origin" -> DOMAIN f # {}
       [] kind = "peer" -> PeerOf(cfg, f).ok
       [] OTHER -> TRUE

\* the values of an instance: a genesis origin hides the transaction, an address replaces host and port
Effective(kind, cfg, f) ==
  CASE kind = "origin" /\ "genesis" \in DOMAIN f -> [x \in {"genesis"} |-> f[x]]
    [] kind = "peer" -> LET p == PeerOf(cfg, f) IN [host |-> p.host, port |-> p.port, str |-> p.host \o cfg.delim \o p.port]
    [] OTHER -> f

Sized(x) == ToString(Len(x)) \o ":" \o x
RECURSIVE JoinedFrom(_, _)
JoinedFrom(s, k) == IF k > Len(s) THEN "" ELSE Sized(s[k]) \o JoinedFrom(s, k + 1)
Joined(n, T(_)) == JoinedFrom([j \in 1..n |-> T(j)], 1)
FieldTerm(t, v, es) ==
  CASE t = "lit" -> v
    [] t = "lits" -> Joined(Len(v), LAMBDA j : v[j])
    [] t \in {"ref", "nested"} -> es[v].id
    [] t \in {"refs", "nestedlist"} -> Joined(Len(v), LAMBDA j : es[v[j]].id)
    [] t = "nano" -> ToString(v.s) \o "." \o ToString(v.n)
    [] t = "sec" -> ToString(v.s)
\* the identity of an instance is the one of the first instance of its kind that was built with the same term
Term(kind, f, es) ==
  LET fs == FieldTable[kind]
  IN Joined(Len(fs), LAMBDA j : IF fs[j].n \in DOMAIN f THEN "=" \o FieldTerm(fs[j].t, f[fs[j].n], es) ELSE "-")
Same(kind, term, es) == {x \in DOMAIN es : es[x].kind = kind /\ es[x].term = term}
Instance(kind, f, es, slot) ==
  LET term == Term(kind, f, es)
      same == Same(kind, term, es)
  IN [kind |-> kind, f |-> f, term |-> term, id |-> IF same = {} THEN ToString(slot) ELSE es[CHOOSE x \in same : TRUE].id]

-----------------------------------------------------------------------------
(* transitions *)
Empty == [x \in {} |-> 0]
Start == [bs |-> <<>>, es |-> Empty]
With(f, name, v) == [x \in DOMAIN f \cup {name} |-> IF x = name THEN v ELSE f[x]]
TypeOf(kind, name) == LET fs == FieldTable[kind] IN fs[CHOOSE j \in 1..Len(fs) : fs[j].n = name].t
Refs(kind, name, v) == CASE TypeOf(kind, name) \in {"ref", "nested"} -> {v}
                         [] TypeOf(kind, name) \in {"refs", "nestedlist"} -> {v[j] : j \in 1..Len(v)}
                         [] OTHER -> {}
\* what a step answers: "done", "ok", "error", or "absent" when it uses what was refused
Answer(st, op) ==
  CASE op.op \in {"new", "create"} -> "done"
    [] op.op = "set" -> IF Refs(st.bs[op.b].kind, op.f, op.v) \subseteq DOMAIN st.es THEN "done" ELSE "absent"
    [] op.op = "now" -> LET b == st.bs[op.b] IN IF Valid(b.kind, b.cfg, b.f, st.es) THEN "ok" ELSE "error"
    [] op.op = "get" -> IF op.e \in DOMAIN st.es THEN "ok" ELSE "absent"
Step(st, op) ==
  CASE op.op = "new" -> [st EXCEPT !.bs = Append(@, [kind |-> op.kind, cfg |-> op.cfg, f |-> Empty])]
    [] op.op = "create" -> [st EXCEPT !.bs = Append(@, [st.bs[op.b] EXCEPT !.f = Empty])]
    [] op.op = "set" -> IF Answer(st, op) = "done" THEN [st EXCEPT !.bs[op.b].f = With(@, op.f, op.v)] ELSE st
    [] op.op = "now" -> IF Answer(st, op) = "ok"
                        THEN LET b == st.bs[op.b]
                                 f == Effective(b.kind, b.cfg, b.f)
                             IN [st EXCEPT !.es = With(@, op.e, Instance(b.kind, f, st.es, op.e))]
                        ELSE st
    [] OTHER -> st
=============================================================================
