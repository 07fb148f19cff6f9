------------------------------ MODULE MonitorGen -----------------------------
(* Behaviours of a monitored test: events of several goroutines, one by one.     *)
EXTENDS Monitor, Json, IOUtils, CSV
CONSTANTS Steps, Goroutines
VARIABLES ev, rec, hit, n, len
R(S) == RandomElement(IF n = n THEN S ELSE {})
Types == {"int", "string", "main.T", "mystring", "reflect.Value", "reflect.flag", "[]main.T", "*reflect.rtype", "reflect.rtype"}
Vals == {"", "x", "<nil>", "12", "L1", "L2", "a b"}
NameSeq == <<"a", "flag", "ptr", "typ_", "b.c", "">>
RECURSIVE RFields(_)
RField(nm, d) == [n |-> nm, y |-> R(Types), v |-> R(Vals), c |-> IF d > 0 /\ R(1..2) = 1 THEN TLCEval(RFields(d - 1)) ELSE <<>>]
\* names in an order of their own, each once
RFields(d) == [k \in 0..3 |-> [o \in 0..5 |-> [i \in 1..k |-> TLCEval(RField(NameSeq[((i + o) % 6) + 1], d))]][R(0..5)]][R(0..3)]
RStack == [k \in 0..4 |-> [i \in 1..k |-> [file |-> R(DOMAIN TrimOf), fn |-> R({"m/p.F", "m/p.(*T).M", "fmt.Println", ""}), line |-> R({0, 1, 77, 2147483647})]]][R(0..4)]
REvent == [c \in 1..9 |-> IF c \in 1..5 THEN [k |-> "state", id |-> R({1, 2, 3, 4, 5, 14, 1, 3, 6, 9, 99}), g |-> R(1..Goroutines), f |-> TLCEval(RFields(2)), s |-> TLCEval(RStack), t |-> R({0, 1, 499999, 500000, 1499999, 1500000, 1999999999, 2146499999})]
                          ELSE IF c \in 6..7 THEN [k |-> "panic", id |-> R({6, 7, 8, 13, 1, 4, 99}), g |-> R(1..Goroutines), f |-> <<>>, s |-> <<>>, t |-> R({0, 7})]
                          ELSE [k |-> "entry", id |-> R({9, 10, 11, 1, 99}), g |-> R(1..Goroutines), f |-> <<>>, s |-> TLCEval(RStack), t |-> 5]][R(1..9)]
Init == ev = <<>> /\ rec = EmptyRec /\ hit = {} /\ n = 0 /\ len = 0
Next == \/ n = 0 /\ n' = 1 /\ len' = R(1..Steps) /\ UNCHANGED <<ev, rec, hit>>
        \/ /\ n > 0 /\ n <= len /\ n' = n + 1
           /\ ev' = Append(ev, TLCEval(REvent))
           /\ rec' = Record(rec, ev'[Len(ev')], Len(ev')) /\ hit' = Hit(hit, ev'[Len(ev')])
           /\ UNCHANGED len
Spec == Init /\ [][Next]_<<ev, rec, hit, n, len>>
\* the recorder's own order is one of the explained ones
SelfExplained == Explains(ev, rec)
Emit == (n > len /\ n > 1) => CSVWrite("%1$s", <<ToJson([ev |-> ev, rec |-> rec, hitmin |-> Cardinality(Known(hit)), hitmax |-> Cardinality(hit), frames |-> [i \in 1..Len(ev) |-> IF ev[i].k = "state" THEN Frame(ev[i]) ELSE [f |-> <<>>, s |-> <<>>, t |-> 0]]])>>, IOEnv.OUT)
==============================================================================
