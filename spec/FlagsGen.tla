------------------------------- MODULE FlagsGen ------------------------------
(* The command line: flags in any order and notation, the last one of a kind     *)
(* wins, what is not given has its documented default.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
Defaults == [project |-> "", module |-> "", modules |-> "", gomod |-> "", gowork |-> "", monitorport |-> "44440", json |-> "modreport.json",
             charts |-> "modreport.png", fieldrecurse |-> "20", fieldlen |-> "1024", cachemb |-> "200", mutationscope |-> "line", mutationset |-> "fast",
             mutationtests |-> "targeted", tmpcopy |-> "true", timemultiplier |-> "2"]
Ints == {"monitorport", "fieldrecurse", "fieldlen", "cachemb", "timemultiplier"}
Custom == [cs |-> "dflt", ci |-> "7", cb |-> "false"]       \* custom flags of the three types
VARIABLES args, customs, cache, n
vars == <<args, customs, cache, n>>
R(S) == RandomElement(IF n = n THEN S ELSE {})
Names == DOMAIN Defaults \cup customs
Values(f) == IF f \in Ints \cup {"ci"} THEN {"0", "1", "17", "-3", "65535", "2147483647"}
             ELSE IF f \in {"tmpcopy", "cb"} THEN {"true", "false"} ELSE {"", "a", "x y", "-dash", "a=b", "ex.com/m@v1.2.3", "../p"}
Styles == {"-f=v", "--f=v", "-f v", "--f v"}
Init == args = <<>> /\ customs = {} /\ cache \in {"", "/tmp/mc"} /\ n = 0
Start == n = 0 /\ n' = 1 /\ customs' = R(SUBSET {"cs", "ci", "cb"}) /\ UNCHANGED <<args, cache>>
Weighted == R({1, 2, 3, 4, 5})
Give == /\ n \in 1..9 /\ n' = n + 1
        /\ \E f \in {IF R(1..4) = 1 THEN "project" ELSE IF R(1..3) = 1 THEN R({"module", "modules", "gomod", "gowork"}) ELSE R(Names)} :
             \E v \in {R(Values(f))} : \E s \in {R(Styles)} :
               args' = Append(args, [f |-> f, v |-> v, s |-> IF f \in {"tmpcopy", "cb"} THEN (IF v = "true" /\ s \in {"-f v", "--f v"} THEN "-f" ELSE "-f=v") ELSE s])
        /\ UNCHANGED <<customs, cache>>
Stop == n \in 2..10 /\ n' = 20 /\ UNCHANGED <<args, customs, cache>>
Next == Start \/ Give \/ Stop
Spec == Init /\ [][Next]_vars
Last(f, d) == LET is == {i \in 1..Len(args) : args[i].f = f} IN IF is = {} THEN d ELSE args[CHOOSE i \in is : \A j \in is : j <= i].v
Val == [f \in DOMAIN Defaults |-> Last(f, Defaults[f])]
Accepted == Val.project # "" /\ (\E f \in {"module", "modules", "gomod", "gowork"} : Val[f] # "") /\ ~(Val.gomod # "" /\ Val.gowork # "")
LastWins == n = 20 /\ args # <<>> => Last(args[Len(args)].f, "?") = args[Len(args)].v
Emit == n = 20 => CSVWrite("%1$s", <<ToJson([args |-> args, customs |-> customs, cache |-> cache, ok |-> Accepted, val |-> Val,
                                             cv |-> [f \in customs |-> Last(f, Custom[f])]])>>, IOEnv.OUT)
==============================================================================
