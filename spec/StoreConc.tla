------------------------------ MODULE StoreConc ------------------------------
(* Concurrent clients over the on-disk layout: every operation is a call, one   *)
(* or more transactions, and a return.  LoadSteps = 1 is the design (marker and *)
(* parts read in one snapshot).  LoadSteps = 2 (marker and parts read in two    *)
(* transactions, as the code once did) is kept to show the invariant has teeth. *)
EXTENDS StoreDisk
CONSTANTS Clients, LoadSteps
VARIABLES pc, seen, res
cvars == <<phys, pc, seen, res>>
CInit == Init /\ pc = [c \in Clients |-> "idle"] /\ seen = [c \in Clients |-> 0] /\ res = [c \in Clients |-> "none"]
Write(c) == /\ pc[c] = "idle" /\ UNCHANGED <<pc, seen, res>>
            /\ \E k \in Keys : (\E v \in Vals : Save(k, v)) \/ Delete(k)
LoadOnce(c) == /\ LoadSteps = 1 /\ pc[c] = "idle" /\ \E k \in Keys : res' = [res EXCEPT ![c] = Load(k)]
               /\ UNCHANGED <<phys, pc, seen>>
LoadMarker(c) == /\ LoadSteps = 2 /\ pc[c] = "idle"
                 /\ \E k \in Keys : IF Main(k) \in DOMAIN phys /\ phys[Main(k)].kind = "marker"
                       THEN pc' = [pc EXCEPT ![c] = k] /\ seen' = [seen EXCEPT ![c] = phys[Main(k)].n] /\ UNCHANGED res
                       ELSE res' = [res EXCEPT ![c] = Load(k)] /\ UNCHANGED <<pc, seen>>
                 /\ UNCHANGED phys
LoadParts(c) == /\ pc[c] # "idle"
                /\ LET k == pc[c] n == seen[c] IN
                   res' = [res EXCEPT ![c] = IF /\ \A i \in 1..n : Part(k, i) \in DOMAIN phys
                                                /\ \A i \in 1..n : phys[Part(k, i)].v = phys[Part(k, 1)].v
                                                /\ PartsOf[phys[Part(k, 1)].v] = n
                                             THEN phys[Part(k, 1)].v ELSE "TORN"]
                /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<phys, seen>>
CNext == \E c \in Clients : Write(c) \/ LoadOnce(c) \/ LoadMarker(c) \/ LoadParts(c)
CSpec == CInit /\ [][CNext]_cvars
NoTornResult == \A c \in Clients : res[c] # "TORN"
MCPartsOf == [v \in {"whole", "two", "three"} |-> CASE v = "two" -> 2 [] v = "three" -> 3 [] OTHER -> 0]
==============================================================================
