------------------------------ MODULE PulledGen ------------------------------
EXTENDS Changed, Json, IOUtils, CSV
VARIABLES deps, proj, reqs, trans, gov, n
vars == <<deps, proj, reqs, trans, gov, n>>
R(S) == RandomElement(IF n = n THEN S ELSE {})
Ms == {"ex.com/a", "ex.com/b", "ex.com/C", "ex.com/d"}
Vs == {"v1.0.0", "v1.1.0", "v1.2.0-RC1"}
Empty == [x \in {} |-> x]
RandDeps(m) == [d \in {x \in Ms \ {m} : R(1..2) = 1} |-> R(Vs)]
Init == deps = Empty /\ proj = Empty /\ reqs = <<>> /\ trans = FALSE /\ gov = Empty /\ n = 0
Start == /\ n = 0 /\ n' = 1
         /\ \E dd \in {[m \in Ms |-> [v \in Vs |-> RandDeps(m)]]} : deps' = dd
         /\ \E p \in {[m \in {x \in Ms : R(1..4) > 1} |-> R(Vs)]} : proj' = p
         /\ \E g \in {[m \in Ms |-> [v \in Vs |-> R({"1.18", "1.20", "1.22.1", "1.21rc2"})]]} : gov' = g
         /\ \E q \in {[i \in 1..R(1..3) |-> LET m == R(Ms) IN m]} : \E o \in {[i \in 1..3 |-> R(Vs)]} : \E w \in {[i \in 1..3 |-> R(Vs)]} :
              reqs' = [i \in 1..Len(q) |-> [m |-> q[i], old |-> o[i], new |-> w[i]]]
         /\ trans' = R({TRUE, TRUE, FALSE})
Finish == n = 1 /\ n' = 2 /\ UNCHANGED <<deps, proj, reqs, trans, gov>>
Next == Start \/ Finish
Spec == Init /\ [][Next]_vars
Res == Analysed(deps, proj, reqs, trans)
Rank(g) == CASE g = "1.18" -> 1 [] g = "1.20" -> 2 [] g = "1.21rc2" -> 3 [] OTHER -> 4
Oldest(a, b) == IF Rank(a) <= Rank(b) THEN a ELSE b
OncePerModule == n = 2 /\ ~Res.amb => \A a, b \in Res.all : a.m = b.m => a = b
RequestsKept == n = 2 => \A i \in 1..Len(reqs) : reqs[i].m \in Names(Res.all)
Emit == n = 2 => CSVWrite("%1$s", <<ToJson([deps |-> [m \in Ms |-> [v \in Vs |-> {[m |-> d, v |-> deps[m][v][d]] : d \in DOMAIN deps[m][v]}]],
            proj |-> {[m |-> d, v |-> proj[d]] : d \in DOMAIN proj}, reqs |-> reqs, trans |-> trans, gov |-> gov, all |-> {c @@ [go |-> Oldest(gov[c.m][c.old], gov[c.m][c.new])] : c \in Res.all}, amb |-> Res.amb])>>, IOEnv.OUT)
==============================================================================
