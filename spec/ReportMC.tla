------------------------------ MODULE ReportMC ------------------------------
EXTENDS Report
None == [t \in {} |-> 0]
NoMut == [count |-> 0, squashed |-> 0]
Mods == {"a", "b"}
Call(s, c, l, t1, t2) == [same |-> s, chg |-> c, lost |-> l, fresh |-> 0, t1 |-> t1, t2 |-> t2]
CallSet == {Call(1, 0, 0, 0, 0), Call(0, 2, 1, 0, 0), Call(0, 1, 0, 3, 9), Call(2, 0, 0, 9, 2)}
Ress == [pre : BOOLEAN, post : BOOLEAN, hit : {1}, calls : {None} \cup {"p" :> k : k \in CallSet} \cup {("p" :> k) @@ ("q" :> l) : k \in {Call(0, 2, 1, 0, 0)}, l \in CallSet}, pan : {0, 2}]
Upds == {<<[name |-> "a", indirect |-> FALSE]>>, <<[name |-> "a", indirect |-> TRUE], [name |-> "b", indirect |-> FALSE]>>,
         <<[name |-> "a", indirect |-> FALSE], [name |-> "b", indirect |-> FALSE]>>}
Base(u, fs) == [upd |-> u, funcs |-> fs, callers |-> None, tests |-> None, res |-> None, mut |-> NoMut, reached |-> 0, untracked |-> 0, checks |-> 0, mult |-> 2]
FuncSets == {fs \in [Mods -> 0..2] : TRUE}
FnsOf(fs) == {<<m, i>> : m \in Mods, i \in 1..2} \cap {f \in Mods \X (1..2) : f[2] <= fs[f[1]]}
Early == {Base(u, fs) : u \in Upds, fs \in FuncSets}
Tests1 == {("T" :> [gen |-> FALSE]), ("T" :> [gen |-> FALSE]) @@ ("G" :> [gen |-> TRUE])}
OneCaller(b) == {[b EXCEPT !.callers = ("p" :> S)] : S \in SUBSET FnsOf(b.funcs) \ {{}}} \cup
                {[b EXCEPT !.callers = ("p" :> S) @@ ("q" :> FnsOf(b.funcs))] : S \in SUBSET FnsOf(b.funcs) \ {{}}}
Late == {b \in Early : Changed(b) > 0 /\ b.upd[1].indirect = FALSE /\ Len(b.upd) = 2}
NoTests == UNION {OneCaller(b) : b \in Late}
Full == {[b EXCEPT !.tests = t, !.res = r, !.mut = m, !.reached = 1, !.checks = 2, !.untracked = u] :
            b \in {b \in NoTests : Cardinality(Reachable(b)) = 2 /\ Changed(b) = 3}, t \in {("T" :> [gen |-> FALSE]) @@ ("G" :> [gen |-> TRUE])},
            r \in {None} \cup {("T" :> r1) : r1 \in Ress} \cup {("T" :> r1) @@ ("G" :> r2) : r1 \in Ress, r2 \in {x \in Ress : x.pan = 0 /\ ~x.pre}},
            m \in {[count |-> 3, squashed |-> 1]}, u \in {0, 1}}
Outcomes == Early \cup NoTests \cup {[b EXCEPT !.tests = t] : b \in {b \in NoTests : Changed(b) = 1}, t \in Tests1} \cup Full
Spec == (\E x \in Outcomes : WellFormed(x) /\ Begin(x)) /\ [][WNext]_wvars /\ WF_wvars(WNext)
Ends == <>(phase = "end")
=============================================================================
