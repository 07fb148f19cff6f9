------------------------------ MODULE StoreLin -------------------------------
(* Trace validation for concurrent use: a recorded history of call and return   *)
(* events is accepted iff every completed operation can take effect (as a Store *)
(* action) at one moment between its call and its return.  An operation that    *)
(* returned an error has no effect; loads and listings may not fail.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES data, t, l, pend
Traces == ndJsonDeserialize(IOEnv.TRACES)
S == INSTANCE Store WITH Namespaces <- {""}, Keys <- {}, Vals <- {}
vars == <<data, t, l, pend>>
T == Traces[t]
Ev == T[l]
Empty == [x \in {} |-> x]
TInit == data = Empty /\ t \in 1..Len(Traces) /\ l = 1 /\ pend = Empty
More == l <= Len(T)
Call == /\ More /\ Ev.e = "call"
        /\ pend' = (Ev.c :> [op |-> Ev.op, k |-> Ev.k, v |-> Ev.v, st |-> "open", res |-> "none"]) @@ pend
        /\ l' = l + 1 /\ UNCHANGED <<data, t>>
SetToRes(s) == s
Lin(c) == /\ More /\ Ev.e = "ret" /\ pend[c].st = "open"
          /\ LET p == pend[c] IN
             CASE p.op = "save"   -> S!Save("", p.k, p.v) /\ pend' = [pend EXCEPT ![c].st = "lin"]
               [] p.op = "delete" -> S!Delete("", p.k)    /\ pend' = [pend EXCEPT ![c].st = "lin"]
               [] p.op = "load"   -> UNCHANGED data /\ pend' = [pend EXCEPT ![c].st = "lin", ![c].res = <<S!LoadRes("", p.k)>>]
               [] p.op = "list"   -> UNCHANGED data /\ pend' = [pend EXCEPT ![c].st = "lin", ![c].res = DOMAIN data]
          /\ UNCHANGED <<t, l>>
Ret == /\ More /\ Ev.e = "ret"
       /\ LET p == pend[Ev.c] IN
          IF Ev.err # "" THEN p.st = "open" /\ p.op \in {"save", "delete"}
          ELSE /\ p.st = "lin"
               /\ p.op = "load" => p.res = <<Ev.res[1]>>
               /\ p.op = "list" => p.res = {Ev.res[i] : i \in 1..Len(Ev.res)} /\ Cardinality(p.res) = Len(Ev.res)
       /\ pend' = [x \in DOMAIN pend \ {Ev.c} |-> pend[x]]
       /\ l' = l + 1 /\ UNCHANGED <<data, t>>
TNext == Call \/ Ret \/ \E c \in DOMAIN pend : Lin(c)
TSpec == TInit /\ [][TNext]_vars
\* bookkeeping: register 1 = set of fully matched traces, registers 10+t = furthest line
ASSUME TLCSet(1, {})
ASSUME \A i \in 1..Len(Traces) : TLCSet(10 + i, 0)
Track == /\ (l > TLCGet(10 + t) => TLCSet(10 + t, l))
         /\ (l > Len(T) => TLCSet(1, TLCGet(1) \cup {t}))
Accepted == LET bad == (1..Len(Traces)) \ TLCGet(1) IN
            /\ PrintT(<<"REJECTED", [i \in bad |-> TLCGet(10 + i)]>>)
            /\ TRUE
==============================================================================
