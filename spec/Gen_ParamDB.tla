----------------------------- MODULE Gen_ParamDB -----------------------------
EXTENDS ParamDB, Json
VARIABLE k
Pick(S) == RandomElement(S)
B(i) == Pick({"p", "pp", "p q", "domain"})
Nm(i) == Pick({"x", "xx", "y z", "Nx1"})
V(i) == Pick(Values)
Line(i) == LET t == Pick(1..10) IN
  CASE t <= 3 -> [k |-> "block", b |-> B(i), n |-> "", v |-> ""]
    [] t <= 8 -> [k |-> "set", b |-> "", n |-> Nm(i), v |-> V(i)]
    [] OTHER -> [k |-> "skip", b |-> "", n |-> "", v |-> ""]
First(i) == IF Pick(1..25) = 1 THEN Line(i) ELSE [k |-> "block", b |-> B(i), n |-> "", v |-> ""]
Op(i) == LET o == Pick({"exist", "gets", "geti", "getd", "getsdef", "getidef", "getddef", "sets", "seti", "setd", "exist", "getsdef", "getidef"}) IN
  [op |-> o, b |-> B(i), n |-> Nm(i),
   v |-> IF o \in {"seti", "getidef"} THEN Pick({"7", "-3", "0", "99999"}) ELSE IF o \in {"setd", "getddef"} THEN Pick({"2.5", "-0.125", "0", "7"}) ELSE V(i)]
Init == k = 0
Next == /\ k = 0 /\ k' = 1
        /\ PrintT("SCN " \o ToJson([lines |-> <<First(0)>> \o [i \in 1..Pick({3, 8, 14, 20}) |-> Line(i)],
              cmd |-> [i \in 1..Pick({0, 0, 1, 2, 3}) |-> [b |-> B(i), n |-> Nm(i), v |-> V(i)]],
              calls |-> [i \in 1..Pick({2, 5, 9}) |-> Op(i)], np |-> Pick({0, 0, 0, 2, 3}), good |-> Pick({0, 1, 1, 1, 1})]))
Spec == Init /\ [][Next]_k
=============================================================================
