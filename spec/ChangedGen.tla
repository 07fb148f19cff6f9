------------------------------ MODULE ChangedGen -----------------------------
EXTENDS Changed, Json, IOUtils, CSV
VARIABLES old, new, n, left, radius
vars == <<old, new, n, left, radius>>
R(S) == RandomElement(IF n = n THEN S ELSE {})
Pkgs == {"", "sub", "sub/deep", "internal/x", "v1"}
Types == {"", "T", "U", "G"}
FNames == {"F", "Fx", "f", "String"}
AnyFile(k) == IF R(1..4) = 1 THEN R({"t_test.go", "w_windows.go"}) ELSE R({"a.go", "b.go"})
Ids == Pkgs \X Types \X FNames
Fresh(k) == [file |-> AnyFile(k), ptr |-> R(BOOLEAN), sig |-> R(0..2), body |-> [i \in 1..R(0..5) |-> i * 10], doc |-> R(0..2), pad |-> R(0..2)]
Empty == [x \in {} |-> x]
Norm(id, f) == IF id[2] = "" THEN [f EXCEPT !.ptr = FALSE] ELSE f
Init == old = Empty /\ new = Empty /\ n = 0 /\ left = 0 /\ radius = 0
Start == /\ n = 0 /\ n' = 1 /\ left' = R(4..24) /\ radius' = R(0..2)
         /\ \E k \in {R(10..24)} : \E ids \in {{R(Ids) : i \in 1..k} \cup {<<"", "", "F">>}} : \E o \in {[i \in ids |-> Norm(i, Fresh(0))]} : old' = o /\ new' = o
Drop(b, k) == SubSeq(b, 1, k - 1) \o SubSeq(b, k + 1, Len(b))
Ins(b, k, x) == SubSeq(b, 1, k) \o <<x>> \o SubSeq(b, k + 1, Len(b))
\* an unused line number between the neighbours, so that lines stay distinct
Gap(b, k) == left + 1000
Edit == /\ n = 1 /\ left > 0 /\ left' = left - 1
        /\ \E op \in {R({"repl", "repl", "ins", "ins", "del", "sig", "ptr", "doc", "pad", "file", "add", "remove", "dup"})} : \E id \in {R(DOMAIN new \cup {<<"", "", "F">>})} :
             \E nid \in {R(Ids)} : \E q \in {R(0..5)} :
             new' = IF id \notin DOMAIN new THEN new ELSE
               LET f == new[id] L == Len(f.body) k == IF L = 0 THEN 0 ELSE (q % L) + 1 IN
               CASE op = "repl" -> IF L = 0 THEN new ELSE [new EXCEPT ![id].body = [@ EXCEPT ![k] = Gap(@, k)]]
                 [] op = "ins" -> [new EXCEPT ![id].body = Ins(@, q % (L + 1), Gap(@, k))]
                 [] op = "del" -> IF L = 0 THEN new ELSE [new EXCEPT ![id].body = Drop(@, k)]
                 [] op = "sig" -> [new EXCEPT ![id].sig = (@ + 1) % 3]
                 [] op = "ptr" -> [new EXCEPT ![id] = Norm(id, [@ EXCEPT !.ptr = ~@])]
                 [] op = "doc" -> [new EXCEPT ![id].doc = (@ + 1) % 3]
                 [] op = "pad" -> [new EXCEPT ![id].pad = (@ + 1) % 3]
                 [] op = "file" -> [new EXCEPT ![id].file = AnyFile(0)]
                 [] op = "add" -> IF nid \in DOMAIN new THEN new ELSE new @@ (nid :> Norm(nid, Fresh(1)))
                 [] op = "remove" -> [x \in DOMAIN new \ {id} |-> new[x]]
                 [] OTHER -> IF nid \in DOMAIN new THEN new ELSE new @@ (nid :> Norm(nid, f))
        /\ UNCHANGED <<old, n, radius>>
Finish == n = 1 /\ left = 0 /\ n' = 2 /\ UNCHANGED <<old, new, left, radius>>
Next == Start \/ Edit \/ Finish
Spec == Init /\ [][Next]_vars
\* ---- sanity ----
Distinct == \A i \in DOMAIN new : Cardinality(Range(LinesOf(new[i]))) = Len(LinesOf(new[i]))
Reflexive == ChangedFns(old, old) = {} /\ \A i \in DOMAIN old : Touched(LinesOf(old[i]), LinesOf(old[i]), 2) = {}
RadiusZero == n = 2 => \A i \in ChangedFns(old, new) : Touched(LinesOf(old[i]), LinesOf(new[i]), 0) \subseteq Touched(LinesOf(old[i]), LinesOf(new[i]), 2)
Tree(w) == {[id |-> i, f |-> w[i]] : i \in DOMAIN w}
Emit == n = 2 => CSVWrite("%1$s", <<ToJson([old |-> Tree(old), new |-> Tree(new), radius |-> radius,
            changed |-> {[id |-> i, touched |-> Touched(LinesOf(old[i]), LinesOf(new[i]), radius)] : i \in ChangedFns(old, new)}])>>, IOEnv.OUT)
==============================================================================
