------------------------------ MODULE ConfigGen ------------------------------
EXTENDS Config, Json, IOUtils, CSV
VARIABLES n
vars == <<c, acc, hist, n>>
R(S) == RandomElement(IF n = n THEN S ELSE {})
Good(k) == [n |-> R(NamesGood), at |-> TRUE, v |-> R(VersGood)]
Bad(k) == IF R(1..4) = 1 THEN [n |-> R(NamesGood \cup {"plain"}), at |-> FALSE, v |-> "v1.0.0"]
          ELSE [n |-> R(NamesGood \cup NamesBad), at |-> TRUE, v |-> R(VersGood \cup VersBad)]
Blank == [n |-> "", at |-> FALSE, v |-> ""]
Around(k) == {Ranges[k][1] - 1, Ranges[k][1], Ranges[k][1] + 1, Ranges[k][2] - 1, Ranges[k][2], Ranges[k][2] + 1, -1, 0, 1, 2147483647}
Keys == {"proj", "module", "modules", "gomod", "gowork", "json", "charts"} \cup Nums \cup DOMAIN EnumOk
AllGood == [proj |-> "abs", module |-> <<>>, modules |-> <<>>, gomod |-> "", gowork |-> "", json |-> "", charts |-> "",
            port |-> 44440, recurse |-> 20, len |-> 1024, cache |-> 200, time |-> 2, scope |-> "line", mode |-> "fast", tests |-> "targeted"]
Value(k) == CASE k = "proj" -> R({"", "abs", "rel", "dots", "absdots"})
              [] k = "module" -> (IF R(1..3) = 1 THEN <<Bad(0)>> ELSE IF R(1..2) = 1 THEN <<>> ELSE <<Good(0)>>)
              [] k = "modules" -> [i \in 1..R(0..3) |-> IF R(1..6) = 1 THEN Bad(i) ELSE IF i > 1 /\ R(1..8) = 1 THEN Blank ELSE Good(i)]
              [] k \in {"gomod", "gowork"} -> R({"", "file", "file", "dir", "missing"})
              [] k \in {"json", "charts"} -> R({"", "dir", "newdir", "clash", "underfile"})
              [] k \in Nums -> R(Around(k))
              [] OTHER -> R(EnumOk[k] \cup {"", "Full", "line ", "other"})
Init == c = AllGood /\ acc = FALSE /\ hist = <<>> /\ n = 0
\* the first edit asks for something
Ask == /\ n = 0 /\ n' = 1 /\ \E k \in {R({"module", "modules", "gomod", "gowork"})} : \E v \in {Value(k)} : c' = [c EXCEPT ![k] = v]
       /\ UNCHANGED <<acc, hist>>
Edit == /\ n >= 1 /\ n <= 12 /\ ~acc /\ n' = n + 1
        /\ \E k \in {R(Keys)} : \E v \in {IF R(1..2) = 1 THEN Value(k) ELSE IF k = "module" THEN <<Good(0)>> ELSE AllGood[k]} : c' = [c EXCEPT ![k] = v]
        /\ UNCHANGED <<acc, hist>>
Prepare == /\ (IF hist = <<>> THEN TRUE ELSE hist[Len(hist)].c # c \/ (acc /\ hist[Len(hist)].ok))
           /\ n >= 1 /\ n <= 12 /\ n' = n + 1
           /\ acc' = (acc \/ Valid(c))
           /\ hist' = Append(hist, [c |-> c, ok |-> ~acc /\ Valid(c), targets |-> IF acc \/ Valid(c) THEN Targets(c) ELSE <<>>])
           /\ UNCHANGED c
Stop == n \in 2..13 /\ (n = 13 \/ (acc /\ ~hist[Len(hist)].ok)) /\ n' = 20 /\ UNCHANGED <<c, acc, hist>>
Next == Ask \/ Edit \/ Prepare \/ Stop
Spec == Init /\ [][Next]_vars
\* accepted once, never again; the accepted one is valid
Once == \A i, j \in 1..Len(hist) : hist[i].ok /\ hist[j].ok => i = j
OnlyValid == \A i \in 1..Len(hist) : hist[i].ok => Valid(hist[i].c)
Emit == n = 20 /\ hist # <<>> => CSVWrite("%1$s", <<ToJson([hist |-> hist])>>, IOEnv.OUT)
==============================================================================
