------------------------------ MODULE StoreGen -------------------------------
(* Behaviours of Store with their history, written out one JSON document each   *)
(* for replay into the real stores.  After every step the whole abstract state  *)
(* is part of the record, so the replay compares everything observable.         *)
EXTENDS Store, Json, IOUtils, CSV
CONSTANTS Depth, Random, Clears   \* Clears: 0 never, n: one step in n may clear
VARIABLES hist, done
\* in simulation mode one random argument tuple per action instead of all of them
Pick(S) == IF Random THEN {RandomElement(IF done = done THEN S ELSE {})} ELSE S
Allow(n) == IF Random THEN n > 0 /\ RandomElement(IF done = done THEN 1..n ELSE {}) = 1 ELSE TRUE
Snapshot(d) == [f \in DOMAIN d |-> d[f]]
Step(op, ns, k, v) == hist' = Append(hist, [op |-> op, ns |-> ns, k |-> k, v |-> v, st |-> data'])
GInit == Init /\ hist = <<>> /\ done = FALSE
GNext == /\ Len(hist) < Depth
         /\ done' = FALSE
         /\ \/ \E ns \in Pick(Namespaces), k \in Pick(Keys), v \in Pick(Vals) : Save(ns, k, v) /\ Step("save", ns, k, v)
            \/ \E ns \in Pick(Namespaces), k \in Pick(Keys) : Delete(ns, k) /\ Step("delete", ns, k, "")
            \/ Allow(Clears) /\ \E ns \in Pick(Namespaces) : Clear(ns) /\ Step("clear", ns, "", "")
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<data, hist>>
GSpec == GInit /\ [][GNext \/ Finish]_<<data, hist, done>>
Emit == done => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
==============================================================================
