------------------------------ MODULE UpdateGen ------------------------------
EXTENDS Update, Json, IOUtils, CSV, SequencesExt
VARIABLES world, n
R(S) == RandomElement(IF n = n THEN S ELSE {})
gMods == {".", "sub", "other"}
gModFiles == {"go.mod", "go.sum", "go.work", "go.work.sum", "sub/go.mod", "sub/go.sum", "other/go.mod", "other/go.sum"}
\* which module files exist, which directories hold a module of the project
Shapes == <<[work |-> FALSE, ds |-> <<".">>], [work |-> FALSE, ds |-> <<".">>], [work |-> TRUE, ds |-> <<".", "sub">>],
            [work |-> TRUE, ds |-> <<"other", "sub">>], [work |-> TRUE, ds |-> <<".", "other", "sub">>], [work |-> TRUE, ds |-> <<"sub">>]>>
Known(s) == (IF s.work THEN {"go.work", "go.work.sum"} ELSE {}) \cup UNION {IF s.ds[i] = "." THEN {"go.mod", "go.sum"} ELSE {s.ds[i] \o "/go.mod", s.ds[i] \o "/go.sum"} : i \in 1..Len(s.ds)}
Needed(s) == (IF s.work THEN {"go.work"} ELSE {}) \cup {IF s.ds[i] = "." THEN "go.mod" ELSE s.ds[i] \o "/go.mod" : i \in 1..Len(s.ds)}
GInit == /\ n = 0 /\ world = [sums |-> {}] /\ pc = "clean" /\ queue = <<>> /\ mfiles = [f \in ModFiles |-> "orig"] /\ src = "orig" /\ failed = FALSE /\ log = <<>>
Setup == /\ n = 0 /\ n' = 1
         /\ \E s \in {Shapes[R(1..Len(Shapes))]} : \E cs \in {R({<<"ex.com/a">>, <<"ex.com/a", "ex.com/b">>})} : \E b \in {R({FALSE, FALSE, TRUE})} : \E a \in {R({FALSE, FALSE, TRUE})} :
              /\ world' = [shape |-> s, cs |-> cs, exist |-> Needed(s) \cup R(SUBSET (Known(s) \ Needed(s))), known |-> Known(s), tests |-> R({0, 1, 1, 2, 3}),
                           callers |-> R(SUBSET {"p/p.go", "p/q.go", "r/r.go", "cache/m.go"}), before |-> b, after |-> a, place |-> R({".", "sub"}),
                           fail |-> R({0, 0, 0, 1, 2, 3, 4, 5, 6, 7}), port |-> R({FALSE, FALSE, FALSE, FALSE, FALSE, TRUE}), mode |-> R({420, 384, 292})]
              /\ queue' = <<[k |-> "clean", d |-> "", m |-> ""]>> \o (IF b THEN <<[k |-> "prehook", d |-> "", m |-> ""]>> ELSE <<>>) \o <<[k |-> "test", d |-> "", m |-> "pre"]>>
                          \o Cmds(s.ds, cs) \o (IF a THEN <<[k |-> "posthook", d |-> "", m |-> ""]>> ELSE <<>>) \o <<[k |-> "test", d |-> "", m |-> "post"]>>
         /\ UNCHANGED <<pc, mfiles, src, failed, log>>
Step == /\ n >= 1 /\ n' = n + 1 /\ UNCHANGED world
        /\ \E t \in {R(SUBSET world.known)} : \E bad \in {R({1, 2, 3}) = 1} :
             Run(IF queue = <<>> \/ Head(queue).k \in {"clean", "prehook", "posthook"} THEN {} ELSE IF Head(queue).k = "test" /\ t = world.known THEN {} ELSE t,
                 IF queue = <<>> THEN FALSE ELSE IF Head(queue).k = "test" THEN bad ELSE world.fail = Len(log) + 1)
End == n >= 1 /\ Finish /\ UNCHANGED <<world, n>>
Next == Setup \/ Step \/ End
Spec == GInit /\ [][Next]_<<vars, world, n>>
Emit == pc = "done" => CSVWrite("%1$s", <<ToJson([world |-> world, log |-> log, failed |-> failed])>>, IOEnv.OUT)
==============================================================================
