-------------------------------- MODULE Store --------------------------------
(* The result store as its users see it: a map from full key to value, with    *)
(* key namespaces layered on top.  One action per interface operation.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Namespaces,   \* namespace names, "" is the store itself
          Keys,         \* keys as callers spell them
          Vals          \* value names (each names one byte string)

VARIABLE data           \* partial function full key -> value

Sep == ";"
Pfx(ns)      == IF ns = "" THEN "" ELSE ns \o Sep
Full(ns, k)  == Pfx(ns) \o k
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Strip(s, p)  == SubSeq(s, Len(p) + 1, Len(s))
FullKeys     == {Full(ns, k) : ns \in Namespaces, k \in Keys}
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

TypeOK == DOMAIN data \subseteq FullKeys /\ \A f \in DOMAIN data : data[f] \in Vals

Init == data = [x \in {} |-> x]

(* ---- mutators ---- *)
Save(ns, k, v) == data' = (Full(ns, k) :> v) @@ data
Delete(ns, k)  == data' = Without(data, {Full(ns, k)})
Clear(ns)      == data' = Without(data, {f \in DOMAIN data : HasPrefix(f, Pfx(ns))})

(* ---- observers (pure) ---- *)
LoadRes(ns, k)  == IF Full(ns, k) \in DOMAIN data THEN data[Full(ns, k)] ELSE "absent"
ListRes(ns, p)  == {Strip(f, Pfx(ns)) : f \in {g \in DOMAIN data : HasPrefix(g, Pfx(ns) \o p)}}

Next == \/ \E ns \in Namespaces, k \in Keys, v \in Vals : Save(ns, k, v)
        \/ \E ns \in Namespaces, k \in Keys : Delete(ns, k)
        \/ \E ns \in Namespaces : Clear(ns)
Spec == Init /\ [][Next]_data

(* ---- properties ---- *)
\* a step in one (proper) namespace leaves the others alone
Isolation == [][\A ns \in Namespaces \ {""} :
                  (\E k \in Keys, v \in Vals : Save(ns, k, v)) \/ (\E k \in Keys : Delete(ns, k)) \/ Clear(ns)
                  => \A o \in Namespaces \ {"", ns} : \A k \in Keys :
                        LET f == Full(o, k) IN (f \in DOMAIN data) = (f \in DOMAIN data') /\ (f \in DOMAIN data => data[f] = data'[f])]_data
\* two (namespace, key) pairs never share a slot
NoAlias == \A a, b \in (Namespaces \ {""}) \X Keys : Full(a[1], a[2]) = Full(b[1], b[2]) => a = b
ListAgrees == \A ns \in Namespaces : \A k \in Keys : (k \in ListRes(ns, "")) = (LoadRes(ns, k) # "absent")
==============================================================================
