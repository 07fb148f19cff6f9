------------------------------ MODULE HelpersGen -----------------------------
EXTENDS Helpers, Json, IOUtils, CSV
VARIABLES n, kind, c
gvars == <<running, waiting, joining, joined, holder, next, n, kind, c>>
R(S) == RandomElement(IF n = n THEN S ELSE {})
Init == HInit /\ n = 0 /\ kind = "" /\ c = <<>>
Size(k) == IF R(1..3) = 1 THEN R({0, 1, 2, 3}) ELSE IF R(1..2) = 1 THEN R(4..40) ELSE R({60, 64, 65, 127, 128, 129, 400})
Tgt(k) == [kind |-> IF R(1..2) = 1 THEN "ok" ELSE R({"fail", "short", "nil", "ok"}), closer |-> R({"no", "yes", "err"})]
OneShort(ts) == Cardinality({i \in 1..Len(ts) : ts[i].kind = "short"}) <= 1
Names == {"A", "AB", "LD_PRELOAD", "LD_", "ALD_X", "GOPATH", "EMPTY", "B"}
Prog(k) == [i \in 1..R(0..6) |-> [op |-> R({"write", "write", "write", "bytes", "string", "len", "reset"}), n |-> Size(i)]]
Start == /\ n = 0 /\ n' = 1 /\ \E x \in {R({"tee", "tee", "roll", "roll", "env", "sched", "buf"})} : kind' = x
         /\ UNCHANGED <<c, running, waiting, joining, joined, holder, next>>
Fill == /\ n = 1 /\ n' = 2 /\ UNCHANGED <<kind, running, waiting, joining, joined, holder, next>>
        /\ CASE kind = "tee" -> \E ts \in {[i \in 1..R(0..4) |-> Tgt(i)]} : \E ws \in {[i \in 1..R(0..4) |-> Size(i)]} :
                  IF OneShort(ts) THEN c' = [targets |-> ts, writes |-> ws, errs |-> [i \in 1..Len(ws) |-> TeeErr(ts, ws[i])],
                     close |-> \E i \in Targets(ts) : ts[i].closer = "err"] ELSE c' = [targets |-> <<>>, writes |-> <<>>, errs |-> <<>>, close |-> FALSE]
             [] kind = "roll" -> \E lim \in {R({6, 7, 8, 9, 20, 64, 128})} : \E ws \in {[i \in 1..R(1..12) |-> Size(i)]} : c' = [limit |-> lim, writes |-> ws]
             [] kind = "env" -> \E o \in {{[k |-> x, v |-> R({"", "1", "a=b"})] : x \in {y \in Names : R(1..2) = 1}}} : \E w \in {{[k |-> x, v |-> R({"", "2", "c=d=e"})] : x \in {y \in Names : R(1..3) = 1}}} :
                  c' = [os |-> o, own |-> w, want |-> {[k |-> e.k, v |-> e.v] : e \in EnvOf({[k |-> e.k, v |-> e.v, ld |-> e.k \in {"LD_PRELOAD", "LD_"}] : e \in o}, {[k |-> e.k, v |-> e.v, ld |-> FALSE] : e \in w})}]
             [] kind = "sched" -> \E lim \in {R(1..4)} : \E a \in {R(1..9)} : \E ks \in {[i \in 1..a |-> [j \in 1..R(1..4) |-> R({"k1", "k2", "k3", "lens/a/b.go", "lens/a/c.go", ""})]]} :
                  c' = [limit |-> lim, acts |-> ks, stripes |-> R({1, 2, 3, 8081}), hold |-> [i \in 1..a |-> R(0..3)]]
             [] OTHER -> \E p \in {Prog(0)} : c' = [prog |-> p]
Next == Start \/ Fill
Spec == Init /\ [][Next]_gvars
Emit == n = 2 => CSVWrite("%1$s", <<ToJson([kind |-> kind, c |-> c])>>, IOEnv.OUT)
==============================================================================
