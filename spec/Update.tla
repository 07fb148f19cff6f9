------------------------------- MODULE Update --------------------------------
(* A module update analysis as a sequence of steps on a project: clean the build  *)
(* cache, instrument and run the tests, update every module definition, run the   *)
(* tests again. A step can fail and any command can change the module files; in   *)
(* every case all files end as they began.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Mods, ModFiles                      \* directories with a module, module files of the project
VARIABLES pc, queue, mfiles, src, failed, log
vars == <<pc, queue, mfiles, src, failed, log>>
\* the commands of an update of every module directory to all changed modules, one directory after the other
RECURSIVE Cmds(_, _)
Cmds(ds, cs) == IF ds = <<>> THEN <<>>
                ELSE [i \in 1..Len(cs) |-> [k |-> "get", d |-> Head(ds), m |-> cs[i]]] \o <<[k |-> "tidy", d |-> Head(ds), m |-> ""]>> \o Cmds(Tail(ds), cs)
Start(ds, cs, before, after) ==
    /\ pc = "clean"
    /\ queue = <<[k |-> "clean", d |-> "", m |-> ""]>> \o (IF before THEN <<[k |-> "prehook", d |-> "", m |-> ""]>> ELSE <<>>) \o <<[k |-> "test", d |-> "", m |-> "pre"]>>
               \o Cmds(ds, cs) \o (IF after THEN <<[k |-> "posthook", d |-> "", m |-> ""]>> ELSE <<>>) \o <<[k |-> "test", d |-> "", m |-> "post"]>>
    /\ mfiles = [f \in ModFiles |-> "orig"] /\ src = "orig" /\ failed = FALSE /\ log = <<>>
Fatal(c) == c.k \in {"clean", "get", "tidy", "prehook", "posthook"}
\* a step runs: touched module files change, and a failure of other than a test ends the analysis
Run(touched, bad) ==
    /\ queue # <<>> /\ ~failed
    /\ LET c == Head(queue) IN
       /\ mfiles' = [f \in ModFiles |-> IF f \in touched THEN "changed" ELSE mfiles[f]]
       /\ src' = IF c.k \in {"test", "prehook", "posthook"} THEN "instrumented" ELSE "orig"   \* instrumented for the tests only
       /\ failed' = (bad /\ Fatal(c))
       /\ log' = Append(log, [c |-> c, bad |-> bad, touched |-> touched])
       /\ queue' = Tail(queue) /\ pc' = "run"
Finish == /\ (queue = <<>> \/ failed) /\ pc = "run" /\ pc' = "done"
          /\ mfiles' = [f \in ModFiles |-> "orig"] /\ src' = "orig"
          /\ UNCHANGED <<queue, failed, log>>
Untouched == pc = "done" => mfiles = [f \in ModFiles |-> "orig"] /\ src = "orig"
==============================================================================
