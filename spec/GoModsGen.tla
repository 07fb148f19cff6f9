------------------------------- MODULE GoModsGen -----------------------------
EXTENDS GoMods, Json, IOUtils, CSV, SequencesExt
VARIABLES kind, old, new, ask, fns, gov, n, left
vars == <<kind, old, new, ask, fns, gov, n, left>>
R(S) == RandomElement(IF n = n THEN S ELSE {})
Members == {".", "m1", "deep/m2", "m-3"}
Empty == [x \in {} |-> x]
Reqs(ms) == LET p == SetToSeq(ms) IN [i \in 1..Len(p) |-> [m |-> p[i], v |-> R(VersionsOf(p[i])), ind |-> R(BOOLEAN)]]
Init == kind = "" /\ old = Empty /\ new = Empty /\ ask = <<>> /\ fns = <<>> /\ gov = Empty /\ n = 0 /\ left = 0
Start == /\ n = 0 /\ n' = 1 /\ left' = R(0..10)
         /\ \E k \in {R({"single", "work", "work"})} : \E ds \in {R((SUBSET Members) \ {{}})} :
              /\ kind' = k
              /\ \E ms \in {[d \in ds |-> R(SUBSET Mods)]} : \E o \in {[d \in (IF k = "single" THEN {"."} ELSE ds) |-> Reqs(IF d \in ds THEN ms[d] ELSE Mods)]} :
                   old' = o /\ new' = o
         /\ UNCHANGED <<ask, fns, gov>>
Put(reqs, r) == IF r.m \in Modules(reqs) THEN [i \in 1..Len(reqs) |-> IF reqs[i].m = r.m THEN r ELSE reqs[i]] ELSE Append(reqs, r)
Edit == /\ n = 1 /\ left > 0 /\ left' = left - 1
        /\ \E op \in {R({"set", "set", "set", "same", "drop", "swap", "rot", "leave", "join"})} : \E d \in {R(DOMAIN new \cup {"."})} : \E m \in {R(Mods)} :
             \E r \in {[m |-> m, v |-> R(VersionsOf(m)), ind |-> R(BOOLEAN)]} :
             new' = IF d \notin DOMAIN new THEN new
                    ELSE CASE op = "set" -> [new EXCEPT ![d] = Put(@, r)]
                         [] op = "same" -> [x \in DOMAIN new |-> Put(new[x], r)]        \* the same bump everywhere
                         [] op = "drop" -> [new EXCEPT ![d] = SelectSeq(@, LAMBDA x : x.m # m)]
                         [] op \in {"swap", "rot"} -> [new EXCEPT ![d] = Reverse(@)]
                         [] op = "leave" -> IF kind = "work" /\ Cardinality(DOMAIN new) > 1 THEN [x \in DOMAIN new \ {d} |-> new[x]] ELSE new
                         [] OTHER -> IF kind = "work" /\ "m9" \notin DOMAIN new THEN new @@ ("m9" :> <<r>>) ELSE new
        /\ UNCHANGED <<kind, old, ask, fns, gov, n>>
Finish == /\ n = 1 /\ left = 0 /\ n' = 2
          /\ \E ms \in {R(SUBSET (Mods \cup {"ex.com/absent"}))} : \E p \in {SetToSeq(ms)} : ask' = [i \in 1..Len(p) |-> [m |-> p[i], v |-> "v9.0.0"]]
          /\ gov' = [d \in DOMAIN old |-> R({GoOrder[i] : i \in 1..Len(GoOrder)})]
          /\ fns' = [i \in 1..R(0..6) |-> [g |-> R(DOMAIN GoVers \cup {""}), m |-> R({"x", "y", "z"})]]
          /\ UNCHANGED <<kind, old, new, left>>
Next == Start \/ Edit \/ Finish
Spec == Init /\ [][Next]_vars
\* ---- sanity of the definitions ----
NoFalseUpdates == n = 2 => \A u \in AllUpdates(old, new) : u.old # u.new /\ u.old \in Selected(old, u.name) /\ u.new \in Selected(new, u.name)
NothingFromNothing == AllUpdates(old, old) = {}
OncePerMember == \A d \in DOMAIN new : Cardinality(Modules(new[d])) = Len(new[d])
Emit == n = 2 => CSVWrite("%1$s", <<ToJson([kind |-> kind, old |-> {[d |-> x, r |-> old[x], g |-> gov[x]] : x \in DOMAIN old}, new |-> {[d |-> x, r |-> new[x], g |-> "1.21"] : x \in DOMAIN new},
     ups |-> {u @@ [ind |-> Indirect(old, new, u)] : u \in AllUpdates(old, new)},
     span |-> {[m |-> m, lo |-> Oldest(Order, Selected(old, m)), hi |-> Newest(Order, Selected(old, m))] : m \in {x \in Mods : Selected(old, x) # {}}},
     go |-> Oldest(GoOrder, {gov[x] : x \in DOMAIN old}),
     asked |-> [i \in 1..Len(ask) |-> ask[i] @@ [cur |-> Selected(old, ask[i].m)]],
     fns |-> [i \in 1..Len(fns) |-> fns[i] @@ [skip |-> TooOld(fns[i].g)]]])>>, IOEnv.OUT)
==============================================================================
