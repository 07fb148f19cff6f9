------------------------------ MODULE StoreDisk ------------------------------
(* The on-disk store one level down: a value above the splitting limit lives in *)
(* numbered part entries behind a marker under the main key; every operation is *)
(* one transaction over these entries.  Checked to refine Store.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Keys, Vals, PartsOf   \* PartsOf[v] = 0: stored whole; n > 0: n part entries
VARIABLE phys                   \* physical key -> entry

Main(k)    == <<"main", k>>
Part(k, i) == <<"part", k, i>>
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
PartsOfEntry(e) == IF e.kind = "marker" THEN e.n ELSE 0
OldParts(k) == IF Main(k) \in DOMAIN phys THEN {Part(k, i) : i \in 1..PartsOfEntry(phys[Main(k)])} ELSE {}

Init == phys = [x \in {} |-> x]
Save(k, v) ==
  LET base == Without(phys, OldParts(k))
      n == PartsOf[v]
  IN phys' = IF n = 0 THEN (Main(k) :> [kind |-> "whole", v |-> v]) @@ base
             ELSE (Main(k) :> [kind |-> "marker", n |-> n])
                  @@ [x \in {Part(k, i) : i \in 1..n} |-> [kind |-> "part", v |-> v, i |-> x[3]]]
                  @@ base
Delete(k) == phys' = Without(phys, OldParts(k) \cup {Main(k)})
ClearAll  == phys' = [x \in {} |-> x]
Next == (\E k \in Keys, v \in Vals : Save(k, v)) \/ (\E k \in Keys : Delete(k)) \/ ClearAll
Spec == Init /\ [][Next]_phys

\* what a load in one snapshot reassembles
Load(k) ==
  IF Main(k) \notin DOMAIN phys THEN "absent"
  ELSE LET e == phys[Main(k)] IN
       IF e.kind = "whole" THEN e.v
       ELSE IF \A i \in 1..e.n : Part(k, i) \in DOMAIN phys /\ phys[Part(k, i)].v = phys[Part(k, 1)].v
                                 /\ phys[Part(k, i)].i = i /\ PartsOf[phys[Part(k, i)].v] = e.n
            THEN phys[Part(k, 1)].v ELSE "TORN"
NeverTorn == \A k \in Keys : Load(k) # "TORN"
NoOrphans == \A x \in DOMAIN phys : x[1] = "part" =>
               /\ Main(x[2]) \in DOMAIN phys
               /\ x[3] <= PartsOfEntry(phys[Main(x[2])])
Abs == [k \in {q \in Keys : Load(q) # "absent"} |-> Load(k)]
Map == INSTANCE Store WITH Namespaces <- {""}, data <- Abs
RefinesMap == Map!Spec
==============================================================================
