------------------------------ MODULE ResultsGen -----------------------------
(* Random behaviours that record a result event by event; used to replay the    *)
(* compact encoding.                                                            *)
EXTENDS Results, Json, IOUtils, CSV
CONSTANTS Steps
VARIABLES res, n
MCNames == <<"a", "b", "long_field_name_beyond_twenty_bytes">>
MCStacks == {<<>>, <<[file |-> "./a.go", line |-> 1, fn |-> "m/p.F"]>>, <<[file |-> "./a.go", line |-> 11, fn |-> "m/p.F"]>>,
             <<[file |-> "./a.go", line |-> 1, fn |-> "m/p.F"], [file |-> "./b.go", line |-> 1, fn |-> "m/p.G"]>>,
             <<[file |-> "./a.go1", line |-> 1, fn |-> "m/p.F"]>>, <<[file |-> "", line |-> 2147483647, fn |-> ""]>>}
\* (the state reference keeps TLC from treating the draw as a constant)
R(S) == RandomElement(IF n = n THEN S ELSE {})
Wrap(m) == IF DOMAIN m = {} THEN Leaf(R(LeafValues)) ELSE Node(R(NodeValues), m)
\* (a random choice that is used twice is bound by function application, LET would draw it again)
RECURSIVE RMap(_)
WrapR(d) == (CHOOSE x \in {<<Wrap(m)>> : m \in {TLCEval(RMap(d))}} : TRUE)[1]
RMap(d) == [D \in SUBSET Names |-> [nm \in D |-> [k \in 1..3 |-> IF d > 0 /\ k < 3 THEN WrapR(d - 1) ELSE Leaf(R(LeafValues))][R(1..3)]]][R(SUBSET Names)]
RTree == TLCEval(RMap(R(1..3)))
RFrame == Frame(RTree, R(Stacks), R({0, 1, 5, MaxTime}))
\* repeating an existing frame (or its tree) is what exercises the dictionaries
AgainOf(r, c) == [i \in 1..Len(r.callers[c]) |-> LET fr == r.callers[c][i] IN
                    [h \in 1..2 |-> IF h = 1 THEN fr
                       ELSE Frame([x \in {"a"} |-> Node("", IF DOMAIN fr.f = {} THEN [y \in {"b"} |-> Leaf("x")] ELSE fr.f)], R(Stacks), 3)][R(1..2)]
                 ][R(1..Len(r.callers[c]))]
Again(r) == IF r.callers = EmptyFun THEN RFrame ELSE [c \in DOMAIN r.callers |-> AgainOf(r, c)][R(DOMAIN r.callers)]
Init == res = NewResult /\ n = 0
Next == /\ n < Steps /\ n' = n + 1
        /\ \E k \in {R(1..12)} :
           res' = CASE k \in 1..4  -> AddCall(res, R(Callers), RFrame)
                    [] k \in 5..8  -> AddCall(res, R(Callers), Again(res))
                    [] k = 9       -> AddExt(res, R(Callers), Again(res))
                    [] k = 10      -> AddPP(res, R(Callers), R(Msgs))
                    [] k = 11      -> AddMP(res, R(Callers), R(Msgs))
                    [] k = 12      -> IF R(1..2) = 1 THEN Hit(res) ELSE Fail(res)
Spec == Init /\ [][Next]_<<res, n>>
Emit == n = Steps => CSVWrite("%1$s", <<ToJson(res)>>, IOEnv.OUT)
==============================================================================
