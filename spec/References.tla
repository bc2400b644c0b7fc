----------------------------- MODULE References -----------------------------
(***************************************************************************)
(* Grammars made of several files.  A file includes others, references     *)
(* their tokens under local names and replaces tokens of its includes by   *)
(* its own.  A library is a record                                         *)
(*   pat   : the patterns, shared by every file                            *)
(*   file  : [name -> [rule, tok, refs, reps]]                             *)
(*     refs: Seq([l, f, t])  the token t of the file f is known as l       *)
(*     reps: Seq([t, l])     references to t are references to l, in the   *)
(*                           file and in the files that it references      *)
(*   chan, co, root : those of the file "top"                              *)
(*   given : Seq([t, f, n]) references to t are references to the token n of *)
(*     the file f, which the application is given; in every other file     *)
(* Its meaning is one grammar (Lexer.tla), in which the names are          *)
(* qualified by their file.                                                *)
(***************************************************************************)
EXTENDS Lexer

Q(f, n) == f \o "." \o n
At(s, n, key) == CHOOSE j \in 1..Len(s) : s[j][key] = n
Has(s, n, key) == \E j \in 1..Len(s) : s[j][key] = n

\* the files that a file references, in any number of steps
RECURSIVE Reach(_, _)
Reach(lib, fs) ==
  LET more == fs \cup UNION {{lib.file[f].refs[j].f : j \in 1..Len(lib.file[f].refs)} : f \in fs \cap DOMAIN lib.file}
  IN IF more = fs THEN fs ELSE Reach(lib, more)

Start(lib) == {"top"} \cup {lib.given[j].f : j \in 1..Len(lib.given)}
GivenTo(lib) == [t \in {lib.given[j].t : j \in 1..Len(lib.given)} |-> LET x == lib.given[At(lib.given, t, "t")] IN Q(x.f, x.n)]

Direct(lib, f) == IF f \in DOMAIN lib.file THEN {lib.file[f].refs[j].f : j \in 1..Len(lib.file[f].refs)} ELSE {}

\* the replacements that hold in a file: its own, and those of the files that lead to it
RECURSIVE Replacements(_, _)
Replacements(lib, f) ==
  LET own == [t \in {lib.file[f].reps[j].t : j \in 1..Len(lib.file[f].reps)} |-> Q(f, lib.file[f].reps[At(lib.file[f].reps, t, "t")].l)]
      parents == {p \in Reach(lib, {"top"}) : f \in Direct(lib, p)}
  IN own @@ (IF f = "top" THEN GivenTo(lib) ELSE IF parents = {} THEN <<>> ELSE Replacements(lib, CHOOSE p \in parents : TRUE))

\* what makes a library meaningless
Refused(lib) ==
  LET fs == Reach(lib, Start(lib)) IN
  \/ fs \ DOMAIN lib.file # {}
  \/ \E f \in fs : f \in Reach(lib, Direct(lib, f))
  \/ \E f \in fs : \E j \in 1..Len(lib.file[f].refs) : lib.file[f].refs[j].t \notin DOMAIN lib.file[lib.file[f].refs[j].f].tok
  \/ \E f \in fs : \E j \in 1..Len(lib.file[f].reps) : lib.file[f].reps[j].l \notin DOMAIN lib.file[f].tok
  \* a name that is nothing
  \/ \E f \in fs : LET reps == TLCEval(Replacements(lib, f)) IN
       \E n \in DOMAIN lib.file[f].tok : LET t == lib.file[f].tok[n] IN
       \E l \in {t.must[j] : j \in 1..Len(t.must)} \cup {t.not[j] : j \in 1..Len(t.not)} :
       \E k \in 1..Len(l) : l[k].k = "t" /\ l[k].n \notin DOMAIN lib.file[f].tok /\ ~Has(lib.file[f].refs, l[k].n, "l") /\ l[k].n \notin DOMAIN reps

Lines(lib, f, lines) ==
  LET reps == TLCEval(Replacements(lib, f))
      Name(n) == IF n \in DOMAIN reps THEN reps[n] ELSE Q(f, n)
      One(ins) == IF ins.k = "sw" THEN ins
                  ELSE IF ins.k = "r" THEN [ins EXCEPT !.n = Q(f, ins.n)]
                  ELSE [ins EXCEPT !.n = Name(ins.n), !.sp = [j \in 1..Len(ins.sp) |-> [ins.sp[j] EXCEPT !.n = Q(f, ins.sp[j].n)]]]
  IN [j \in 1..Len(lines) |-> [k \in 1..Len(lines[j]) |-> One(lines[j][k])]]
Tok(lib, f, n) == [must |-> Lines(lib, f, lib.file[f].tok[n].must), not |-> Lines(lib, f, lib.file[f].tok[n].not)]

\* [qualified name -> <<file, token>>] of every name
Names(lib, fs) ==
  LET own == UNION {{<<Q(f, n), f, n, n>> : n \in DOMAIN lib.file[f].tok} : f \in fs}
      refs == UNION {{<<Q(f, lib.file[f].refs[j].l), lib.file[f].refs[j].f, lib.file[f].refs[j].t, lib.file[f].refs[j].l>> : j \in 1..Len(lib.file[f].refs)} : f \in fs}
  IN own \cup refs

Merge(lib) ==
  LET fs == Reach(lib, Start(lib))
      names == Names(lib, fs)
      rules == UNION {{<<Q(f, n), f, n>> : n \in DOMAIN lib.file[f].rule} : f \in fs}
      Of(set, q) == CHOOSE x \in set : x[1] = q
  IN [pat |-> lib.pat,
      rule |-> [q \in {x[1] : x \in rules} |-> LET x == Of(rules, q) IN lib.file[x[2]].rule[x[3]]],
      tok |-> [q \in {x[1] : x \in names} |-> LET x == Of(names, q) IN Tok(lib, x[2], x[3])],
      chan |-> [n \in DOMAIN lib.chan |-> [must |-> Lines(lib, "top", lib.chan[n].must), not |-> Lines(lib, "top", lib.chan[n].not)]],
      co |-> lib.co,
      root |-> Q("top", lib.root),
      as |-> [q \in {x[1] : x \in names} |-> Of(names, q)[4]] @@ [q \in {x[1] : x \in rules} |-> Of(rules, q)[3]]]

\* the tree with the names as they are declared
RECURSIVE Plain(_, _)
Plain(as, t) ==
  [t EXCEPT !.n = as[t.n],
            !.m = [j \in 1..Len(t.m) |-> IF "r" \in DOMAIN t.m[j] THEN [t.m[j] EXCEPT !.r = as[t.m[j].r]]
                                        ELSE [t |-> as[t.m[j].t], m |-> [k \in 1..Len(t.m[j].m) |-> Plain(as, t.m[j].m[k])]]]]

LibraryOutcome(lib, s) ==
  IF Refused(lib) THEN [v |-> "error"]
  ELSE LET g == TLCEval(Merge(lib))
           o == Outcome(g, s)
       IN IF o.v = "ok" THEN [o EXCEPT !.t = Plain(g.as, o.t)] ELSE o
=============================================================================
