------------------------------ MODULE WireCheck ------------------------------
(* Trace validation: every event the monitor received is a faithful rendering.  *)
EXTENDS Wire, Json, IOUtils
VARIABLES t
Traces == ndJsonDeserialize(IOEnv.TRACES)
ASSUME TLCSet(1, {})
Init == t \in 1..Len(Traces)
Next == FALSE /\ t' = t
Spec == Init /\ [][Next]_t
Track == (~GoodEvent(Traces[t])) => TLCSet(1, TLCGet(1) \cup {t})
Accepted == PrintT(<<"REJECTED", [i \in TLCGet(1) |-> 1]>>)
==============================================================================
