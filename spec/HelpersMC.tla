------------------------------ MODULE HelpersMC ------------------------------
(* Exhaustive exploration of limiter and locks: safety, and no waiter is lost.   *)
EXTENDS Helpers
CONSTANTS Acts, Limit, Ks
VARIABLE finished
vars == <<running, waiting, joining, joined, holder, next, finished>>
Init == HInit /\ finished = {}
Step(a) == \/ a \notin finished /\ Ask(a) /\ UNCHANGED finished
           \/ Take(a, Limit) /\ UNCHANGED finished
           \/ Rel(a) /\ finished' = finished \cup {a}
           \/ a \in running /\ \E k \in Ks : (((\A x \in DOMAIN holder : holder[x] # a) /\ Lock(a, k)) \/ Unlock(a, k)) /\ UNCHANGED finished
Next == (\E a \in Acts : Step(a)) \/ ((Join \/ Joined) /\ UNCHANGED finished)
Spec == /\ Init /\ [][Next]_vars
        /\ \A a \in Acts : SF_vars(Take(a, Limit) /\ UNCHANGED finished) /\ WF_vars(Rel(a) /\ finished' = finished \cup {a})
        /\ WF_vars(Joined /\ UNCHANGED finished)
WithinLimit == Cardinality(running) <= Limit
Exclusive == \A k \in DOMAIN holder : holder[k] \in Acts
JoinAfterAll == joined => running = {} /\ waiting = {}
NoLostWaiter == \A a \in Acts : a \in waiting ~> a \in finished
JoinReturns == joining ~> joined
==============================================================================
