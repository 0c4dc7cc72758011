------------------------------- MODULE ParamDB -------------------------------
(* The parameter data base (par.c), property C05.

   The data base is a sequence of blocks in order of first appearance, each a
   record of a name and a sequence of <<name, value>> pairs in order of first
   assignment.  Values are character strings; what the integer and
   floating-point readers make of them is given by the tables AsInt and AsMilli
   (thousandths), for the value strings used here.                           *)
EXTENDS Integers, Sequences, TLC

AsInt == [x \in {"7", "-3", "0", "2.5", "1e3", "abc", "12abc", "", "a = b", "x y", "-0.125", "+4", "99999"} |->
   CASE x = "7" -> 7 [] x = "-3" -> -3 [] x = "0" -> 0 [] x = "2.5" -> 2 [] x = "1e3" -> 1 [] x = "abc" -> 0
     [] x = "12abc" -> 12 [] x = "" -> 0 [] x = "a = b" -> 0 [] x = "x y" -> 0 [] x = "-0.125" -> 0 [] x = "+4" -> 4 [] x = "99999" -> 99999]
AsMilli == [x \in DOMAIN AsInt |->
   CASE x = "2.5" -> 2500 [] x = "1e3" -> 1000000 [] x = "-0.125" -> -125 [] OTHER -> 1000 * AsInt[x]]
Values == DOMAIN AsInt

BIdx(db, b) == {i \in 1..Len(db) : db[i].b = b}
PIdx(ps, n) == {i \in 1..Len(ps) : ps[i][1] = n}
Has(db, b, n) == \E i \in BIdx(db, b) : PIdx(db[i].p, n) # {}
The(S) == CHOOSE x \in S : TRUE
Value(db, b, n) == LET i == The(BIdx(db, b)) IN db[i].p[The(PIdx(db[i].p, n))][2]
AddBlock(db, b) == IF BIdx(db, b) # {} THEN db ELSE Append(db, [b |-> b, p |-> <<>>])
SetPar(ps, n, v) == IF PIdx(ps, n) = {} THEN Append(ps, <<n, v>>) ELSE [ps EXCEPT ![The(PIdx(ps, n))] = <<n, v>>]
Set(db, b, n, v) == LET d == AddBlock(db, b) i == The(BIdx(d, b)) IN [d EXCEPT ![i].p = SetPar(@, n, v)]

\* Reading a file: lines are [k |-> "block", b], [k |-> "set", n, v], or
\* [k |-> "skip"] (blank or comment), [k |-> "end"] (nothing after it counts).
\* The result is [ok, db, cur]; a setting before any block is an error.
ReadLine(s, l) ==
  IF ~s.ok \/ s.done THEN s
  ELSE CASE l.k = "block" -> [s EXCEPT !.db = AddBlock(@, l.b), !.cur = l.b]
         [] l.k = "set" -> IF s.cur = "" THEN [s EXCEPT !.ok = FALSE] ELSE [s EXCEPT !.db = Set(@, s.cur, l.n, l.v)]
         [] l.k = "end" -> [s EXCEPT !.done = TRUE]
         [] OTHER -> s
RECURSIVE ReadFile(_, _)
ReadFile(s, ls) == IF ls = <<>> THEN s ELSE ReadFile(ReadLine(s, Head(ls)), Tail(ls))
Empty == [ok |-> TRUE, db |-> <<>>, cur |-> "", done |-> FALSE]
\* The command line: may only name existing parameters
RECURSIVE CmdLine(_, _)
CmdLine(s, cs) ==
  IF cs = <<>> \/ ~s.ok THEN s
  ELSE LET c == Head(cs) IN
       CmdLine(IF Has(s.db, c.b, c.n) THEN [s EXCEPT !.db = Set(@, c.b, c.n, c.v)] ELSE [s EXCEPT !.ok = FALSE], Tail(cs))
\* Calls of the access functions: result <<new state, answer>>
Call(s, c) ==
  CASE c.op = "exist" -> <<s, IF Has(s.db, c.b, c.n) THEN "1" ELSE "0">>
    [] c.op \in {"gets", "geti", "getd"} ->
         IF ~Has(s.db, c.b, c.n) THEN <<[s EXCEPT !.ok = FALSE], "error">>
         ELSE LET v == Value(s.db, c.b, c.n) IN
              <<s, CASE c.op = "gets" -> v [] c.op = "geti" -> ToString(AsInt[v]) [] c.op = "getd" -> ToString(AsMilli[v])>>
    [] c.op \in {"getsdef", "getidef", "getddef"} ->
         LET d == IF Has(s.db, c.b, c.n) THEN s ELSE [s EXCEPT !.db = Set(@, c.b, c.n, c.v)]
             v == Value(d.db, c.b, c.n)
         IN <<d, CASE c.op = "getsdef" -> v [] c.op = "getidef" -> ToString(AsInt[v]) [] c.op = "getddef" -> ToString(AsMilli[v])>>
    [] c.op \in {"sets", "seti", "setd"} -> <<[s EXCEPT !.db = Set(@, c.b, c.n, c.v)], "ok">>
\* the lines of a dump
RECURSIVE DumpLines(_)
DumpLines(db) == IF db = <<>> THEN <<>> ELSE
  LET b == Head(db) IN <<[k |-> "block", b |-> b.b]>> \o [i \in 1..Len(b.p) |-> [k |-> "set", n |-> b.p[i][1], v |-> b.p[i][2]]]
                        \o DumpLines(Tail(db))
Reload(db) == ReadFile(Empty, DumpLines(db)).db
=============================================================================
