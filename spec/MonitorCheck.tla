----------------------------- MODULE MonitorCheck ----------------------------
(* Trace validation: what was recorded while goroutines ran concurrently.        *)
EXTENDS Monitor, Json, IOUtils
VARIABLES t
Traces == ndJsonDeserialize(IOEnv.TRACES)
ASSUME TLCSet(1, {})
Init == t \in 1..Len(Traces)
Next == FALSE /\ t' = t
Spec == Init /\ [][Next]_t
Track == (~Explains(Traces[t].ev, Traces[t].got)) => TLCSet(1, TLCGet(1) \cup {t})
Accepted == PrintT(<<"REJECTED", [i \in TLCGet(1) |-> 1]>>)
==============================================================================
