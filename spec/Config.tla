-------------------------------- MODULE Config -------------------------------
(* A configuration: options, what makes it acceptable, and what preparing it     *)
(* yields.  A request for a module update is "name@version".                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
\* ---- requests: name, at sign, version; the name needs a dot or a slash ----
NamesGood == {"ex.com/a", "ex.com/B/v2", "a/b", "gopkg.in"}
NamesBad == {"plain", ""}
VersGood == {"v1.0.0", "v0.0.0-20240102030405-abcdef123456", "v2.0.0+incompatible", "latest"}
VersBad == {"", "v1@v2"}
Request == [n : NamesGood \cup NamesBad, at : BOOLEAN, v : VersGood \cup VersBad]
ReqOk(r) == r.n \in NamesGood /\ r.at /\ r.v \in VersGood
ReqText(r) == IF r.at THEN [s |-> r.n, t |-> r.v] ELSE [s |-> r.n, t |-> "-"]
\* ---- options ----
Ranges == [port |-> <<1024, 65535>>, recurse |-> <<1, 100>>, len |-> <<1, 1048576>>, cache |-> <<1, 10240>>, time |-> <<1, 100>>]
Nums == DOMAIN Ranges
InRange(k, v) == v >= Ranges[k][1] /\ v <= Ranges[k][2]
EnumOk == [scope |-> {"function", "line", "area", "none"}, mode |-> {"full", "fast"}, tests |-> {"full", "targeted"}]
\* files: "" not given, otherwise what is found there
InOk == {"", "file"}
OutOk == {"", "dir", "newdir", "clash"}      \* existing directory, directory to be made, directory holding an unrelated file
Valid(c) == /\ c.proj # ""
            /\ (c.module # <<>> \/ c.modules # <<>> \/ c.gomod # "" \/ c.gowork # "")
            /\ ~(c.gomod # "" /\ c.gowork # "")
            /\ \A i \in 1..Len(c.module) : ReqOk(c.module[i])
            /\ \A i \in 1..Len(c.modules) : ReqOk(c.modules[i])
            /\ c.gomod \in InOk /\ c.gowork \in InOk
            /\ \A k \in Nums : InRange(k, c[k])
            /\ \A k \in DOMAIN EnumOk : c[k] \in EnumOk[k]
            /\ c.json \in OutOk /\ c.charts \in OutOk
Targets(c) == c.module \o c.modules
\* ---- life: edited, prepared until accepted, fixed from then on ----
VARIABLES c, acc, hist
cvars == <<c, acc, hist>>
==============================================================================
