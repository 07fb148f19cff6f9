------------------------------- MODULE Reach --------------------------------
(* What can reach a changed function, and the traversal that finds it.           *)
(*                                                                                *)
(* A program is a set of functions and call sites. Must is the relation of calls  *)
(* that a run of the program can really make; May adds what a sound static        *)
(* resolution of dynamic calls may add: a call of a function value may reach      *)
(* every function of that signature and every function literal of it, a call      *)
(* through an interface every method of that name and signature.                  *)
EXTENDS Naturals, FiniteSets, Sequences, TLC

RECURSIVE Grow(_, _, _)
\* everything from which S can be reached by Pairs; nothing is reached through a stop
Grow(S, Pairs, Stops) ==
  LET more == S \cup {p[1] : p \in {q \in Pairs : q[2] \in S /\ q[2] \notin Stops}}
  IN IF more = S THEN S ELSE Grow(more, Pairs, Stops)

(* the traversal of the implementation: a stack of functions whose callers are    *)
(* still to be visited                                                            *)
CONSTANT Nodes
VARIABLES pairs, stops, start, stack, seen, visits
vars == <<pairs, stops, start, stack, seen, visits>>
Init == /\ pairs \in SUBSET (Nodes \X Nodes) /\ stops \in SUBSET Nodes /\ start \in Nodes
        /\ stack = {start} /\ seen = {start} /\ visits = [n \in Nodes |-> 0]
Visit(n) == /\ n \in stack
            /\ visits' = [visits EXCEPT ![n] = @ + 1]
            /\ LET up == IF n \in stops THEN {} ELSE {p[1] : p \in {q \in pairs : q[2] = n}} \ seen
               IN seen' = seen \cup up /\ stack' = (stack \ {n}) \cup up
            /\ UNCHANGED <<pairs, stops, start>>
Next == \E n \in Nodes : Visit(n)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == stack = {}
Exact == Done => {n \in Nodes : visits[n] > 0} = Grow({start}, pairs, stops)
Once == \A n \in Nodes : visits[n] <= 1
Sound == {n \in Nodes : visits[n] > 0} \subseteq Grow({start}, pairs, stops)
Terminates == <>Done
==============================================================================
