------------------------------ MODULE WireGen --------------------------------
(* Random heaps and captures for replay into the injected client.               *)
EXTENDS Wire, Json, IOUtils, CSV
CONSTANTS NObj, Scalars, IdClasses
VARIABLES case, done
\* (the state reference keeps TLC from treating the draw as a constant)
R(S) == RandomElement(IF done = done THEN S ELSE {})
Nil(t) == [k |-> "n", t |-> t]
Kinds == <<"struct", "struct", "struct", "slice", "map", "cell", "slice">>
\* kinds are fixed per heap first; references then choose among the objects of the kind
Of(kinds, k) == {i \in 1..NObj : kinds[i] = k}
Pick(S, F(_), alt) == IF S = {} THEN alt ELSE CHOOSE x \in {F(i) : i \in {R(S)}} : TRUE
Ptr(i) == [k |-> "p", o |-> i]
PP(i) == [k |-> "pp", o |-> i]
Val(i) == [k |-> "v", o |-> i]
Sl(i) == [k |-> "sl", o |-> i, n |-> R(0..(MaxLen + 2))]
Mp(i) == [k |-> "m", o |-> i]
AnyVal(kinds, self) ==
  [c \in 1..14 |->
     CASE c \in 1..5 -> [k |-> "s", id |-> R(Scalars)]
       [] c = 6 -> Nil("interface {}")
       [] c \in 7..8 -> Pick(Of(kinds, "struct"), Ptr, Nil("interface {}"))
       [] c = 9 -> Pick({i \in Of(kinds, "struct") : i > self}, Val, Nil("*main.N"))
       [] c = 10 -> Pick(Of(kinds, "slice"), Sl, Nil("[]interface {}"))
       [] c = 11 -> Pick(Of(kinds, "map"), Mp, Nil("map[string]interface {}"))
       [] c = 12 -> Pick(Of(kinds, "cell"), Ptr, Nil("*interface {}"))
       [] c = 13 -> Pick(Of(kinds, "struct"), PP, Nil("interface {}"))
       [] c = 14 -> R({Nil("*main.N"), Nil("[]interface {}"), Nil("map[string]interface {}"), Nil("func()"), Nil("chan int")})
  ][R(1..14)]
BVal(kinds) == [c \in 1..3 |-> IF c = 1 THEN Nil("*main.N") ELSE Pick(Of(kinds, "struct"), Ptr, Nil("*main.N"))][R(1..3)]
DVal(kinds) == [c \in 1..3 |-> IF c = 1 THEN Nil("[]interface {}") ELSE Pick(Of(kinds, "slice"), Sl, Nil("[]interface {}"))][R(1..3)]
EVal(kinds) == [c \in 1..3 |-> IF c = 1 THEN Nil("map[string]interface {}") ELSE Pick(Of(kinds, "map"), Mp, Nil("map[string]interface {}"))][R(1..3)]
Fd(n, x) == [n |-> n, x |-> x]
\* maps with several entries hold scalars only: iteration order decides which of two shared parts is shown in full
MapObj(kinds, i) == [c \in 1..3 |-> IF c = 1 THEN <<Fd("k1", AnyVal(kinds, i))>>
                              ELSE [n \in 0..(MaxLen + 2) |-> [j \in 1..n |-> Fd("k" \o ToString(j), [k |-> "s", id |-> R(Scalars)])]][R(0..(MaxLen + 2))]][R(1..3)]
Obj(kinds, i) ==
  CASE kinds[i] = "struct" -> [k |-> "struct", f |-> <<Fd("A", AnyVal(kinds, i)), Fd("B", BVal(kinds)), Fd("c", AnyVal(kinds, i)), Fd("D", DVal(kinds)), Fd("E", EVal(kinds))>>]
    [] kinds[i] = "cell"   -> [k |-> "cell", f |-> <<Fd("", AnyVal(kinds, i))>>]
    [] kinds[i] = "slice"  -> [k |-> "slice", f |-> [j \in 1..(MaxLen + 2) |-> Fd("[" \o ToString(j - 1) \o "]", IF j > 4 THEN [k |-> "s", id |-> R(Scalars)] ELSE AnyVal(kinds, i))]]
    [] kinds[i] = "map"    -> [k |-> "map", f |-> MapObj(kinds, i)]
SnapName(i) == IF i = 1 THEN "ret0" ELSE IF i = 2 THEN "x" ELSE "名"
TopVal(kinds) == [c \in 1..3 |-> IF c = 1 THEN [k |-> "s", id |-> R(Scalars)]
                                 ELSE AnyVal(kinds, 0)][R(1..3)]
\* a nil interface loses its type at the top
Top(x) == IF x.k = "n" /\ x.t = "interface {}" THEN Nil("any") ELSE x
MakeCase(kinds) == [heap |-> [i \in 1..NObj |-> Obj(kinds, i)],
                    snaps |-> [n \in 0..3 |-> [j \in 1..n |-> Fd(SnapName(j), Top(TopVal(kinds)))]][R(0..3)],
                    chain |-> [n \in 0..3 |-> [j \in 1..n |-> R({"pa", "pb"})]][R(0..3)],
                    id |-> R(IdClasses)]
Init == case = <<>> /\ done = 0
Next == \/ done = 0 /\ done' = 1 /\ case' = TLCEval(MakeCase(TLCEval([i \in 1..NObj |-> Kinds[R(1..Len(Kinds))]])))
        \/ done = 1 /\ done' = 2 /\ UNCHANGED case
Spec == Init /\ [][Next]_<<case, done>>
Emit == done = 2 => CSVWrite("%1$s", <<ToJson(case)>>, IOEnv.OUT)
==============================================================================
