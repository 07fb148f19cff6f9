------------------------------- MODULE Mutate -------------------------------
(* Mutation testing of the changed functions of a module. The analysis plans a run *)
(* of the mutation tool (files, function names, disabled lines), the tool picks    *)
(* one mutant after the other, and the execution script it is given puts the       *)
(* mutant in place, runs the tests and puts the original back. Scripts can be      *)
(* killed between any two of their steps, and the tool can fail between mutants.   *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
VARIABLES cfg,     \* the scenario, fixed
          phase,   \* idle, run, done, failed
          disk,    \* file -> orig, annot (unchanged lines are marked), none, or the mutant in place
          bak,     \* file -> none or content of the backup next to it
          todo, cur, step,
          log      \* for each judged mutant <<place, tests, outcome>>
vars == <<cfg, phase, disk, bak, todo, cur, step, log>>

\* the module and the tests are part of the scenario
Slots == cfg.slots           \* places that can be mutated
Fns == cfg.fns
Tests == cfg.tests
FnOf(s) == cfg.fnOf[s]
FileOf(f) == cfg.fileOf[f]
NameOf(f) == cfg.nameOf[f]
Files == {FileOf(f) : f \in Fns}

----------------------------------------------------------------------------
\* the scope
Changed(f) == f \in cfg.changed
Lines(f) == {s \in Slots : FnOf(s) = f /\ s \in cfg.lines}
Target(f) == Changed(f) /\ (cfg.byLine => Lines(f) # {})
Kind(s) == ~(cfg.fast /\ s \in cfg.slow)
InScope(s) == Target(FnOf(s)) /\ Kind(s) /\ (cfg.byLine => s \in cfg.lines)
\* the tests that judge mutants of a file
Selected(file) == IF cfg.targeted THEN {t \in Tests : \E f \in cfg.changed : FileOf(f) = file /\ f \in cfg.covers[t]} ELSE Tests
OutcomeOf(s, T) == IF T = {} \/ s \in cfg.broken THEN "skipped" ELSE IF \E t \in T : s \in cfg.kills[t] THEN "killed" ELSE "alive"

----------------------------------------------------------------------------
\* what the tool is given, and what it makes of it
Targets == {f \in Fns : Target(f)}
PlanFiles == {FileOf(f) : f \in Targets}
PlanNames == {NameOf(f) : f \in Targets}
Disabled == IF cfg.byLine THEN {s \in Slots : FnOf(s) \in Targets /\ s \notin cfg.lines} ELSE {}
Offered(s) == FileOf(FnOf(s)) \in PlanFiles /\ NameOf(FnOf(s)) \in PlanNames /\ s \notin Disabled /\ Kind(s)
\* the tool only knows bare names: unchanged functions named like a changed one
Namesake(f) == f \notin Targets /\ FileOf(f) \in PlanFiles /\ NameOf(f) \in PlanNames

----------------------------------------------------------------------------
Begin(c) == /\ cfg = c /\ phase = "idle" /\ LET fs == {c.fileOf[f] : f \in c.fns} IN disk = [f \in fs |-> "orig"] /\ bak = [f \in fs |-> "none"]
            /\ todo = {} /\ cur = "none" /\ step = "none" /\ log = <<>>
Start == /\ phase = "idle"
         /\ IF Targets = {} THEN phase' = "done" /\ UNCHANGED <<disk, todo>>
            ELSE /\ phase' = "run" /\ todo' = {s \in Slots : Offered(s)}
                 /\ disk' = [f \in Files |-> IF cfg.byLine /\ f \in PlanFiles THEN "annot" ELSE "orig"]
         /\ UNCHANGED <<cfg, bak, cur, step, log>>
Pick(s) == /\ phase = "run" /\ step = "none" /\ s \in todo /\ todo' = todo \ {s} /\ cur' = s /\ step' = "recover"
           /\ UNCHANGED <<cfg, phase, disk, bak, log>>
\* the script
Recover == /\ step = "recover" /\ step' = IF Selected(FileOf(FnOf(cur))) = {} THEN "skip" ELSE "backup"
           /\ disk' = [f \in Files |-> IF bak[f] # "none" THEN bak[f] ELSE disk[f]] /\ bak' = [f \in Files |-> "none"]
           /\ UNCHANGED <<cfg, phase, todo, cur, log>>
Skip == /\ step = "skip" /\ step' = "none" /\ cur' = "none" /\ log' = Append(log, <<cur, {}, "skipped">>) /\ UNCHANGED <<cfg, phase, disk, bak, todo>>
Backup == /\ step = "backup" /\ step' = "install"
          /\ bak' = [bak EXCEPT ![FileOf(FnOf(cur))] = disk[FileOf(FnOf(cur))]] /\ disk' = [disk EXCEPT ![FileOf(FnOf(cur))] = "none"]
          /\ UNCHANGED <<cfg, phase, todo, cur, log>>
Install == /\ step = "install" /\ step' = "test" /\ disk' = [disk EXCEPT ![FileOf(FnOf(cur))] = cur]
           /\ UNCHANGED <<cfg, phase, bak, todo, cur, log>>
\* the mutant cannot be put in place
InstallFails == /\ step = "install" /\ step' = "restore" /\ log' = Append(log, <<cur, {}, "skipped">>) /\ UNCHANGED <<cfg, phase, disk, bak, todo, cur>>
Test == /\ step = "test" /\ step' = "restore"
        /\ LET T == Selected(FileOf(FnOf(cur))) IN log' = Append(log, <<cur, T, OutcomeOf(cur, T)>>)
        /\ UNCHANGED <<cfg, phase, disk, bak, todo, cur>>
PutBack == /\ step = "restore" /\ step' = "none" /\ cur' = "none"
           /\ disk' = [disk EXCEPT ![FileOf(FnOf(cur))] = bak[FileOf(FnOf(cur))]] /\ bak' = [bak EXCEPT ![FileOf(FnOf(cur))] = "none"]
           /\ UNCHANGED <<cfg, phase, todo, log>>
\* the script is killed: the tool learns nothing about the mutant
Kill == /\ step \notin {"none"} /\ step' = "none" /\ cur' = "none"
        /\ log' = IF step = "restore" THEN [log EXCEPT ![Len(log)] = <<cur, @[2], "error">>] ELSE Append(log, <<cur, {}, "error">>)
        /\ UNCHANGED <<cfg, phase, disk, bak, todo>>
\* the end: backups left by killed scripts first, then the annotations
End(ph) == /\ phase = "run" /\ step = "none" /\ phase' = ph /\ disk' = [f \in Files |-> "orig"] /\ bak' = [f \in Files |-> "none"]
           /\ \A f \in Files : (IF bak[f] # "none" THEN bak[f] ELSE disk[f]) \in {"orig", "annot"}      \* what is undone is the annotation only
           /\ UNCHANGED <<cfg, todo, cur, step, log>>
Finish == todo = {} /\ End("done")
ToolFails == End("failed")
Next == Start \/ (\E s \in todo : Pick(s)) \/ Recover \/ Skip \/ Backup \/ Install \/ InstallFails \/ Test \/ PutBack \/ Kill \/ Finish \/ ToolFails

Count == Len(log)
Killed == Cardinality({i \in 1..Len(log) : log[i][3] = "killed"})
----------------------------------------------------------------------------
OnlyInScope == \A i \in 1..Len(log) : InScope(log[i][1]) \/ Namesake(FnOf(log[i][1]))
AllOfScope == phase = "done" => \A s \in Slots : InScope(s) => \E i \in 1..Len(log) : log[i][1] = s
OncePerPlace == \A i, j \in 1..Len(log) : log[i][1] = log[j][1] => i = j
\* while tests run exactly the mutant is in place
JudgedAlone == step = "test" => /\ disk[FileOf(FnOf(cur))] = cur
                                /\ \A f \in Files \ {FileOf(FnOf(cur))} : disk[f] \in {"orig", "annot"}
JudgedBySelected == \A i \in 1..Len(log) : log[i][2] \in {{}, Selected(FileOf(FnOf(log[i][1])))}
NoTrace == phase \in {"done", "failed"} => \A f \in Files : disk[f] = "orig" /\ bak[f] = "none"
\* the original is never lost
Recoverable == \A f \in Files : disk[f] \in {"orig", "annot"} \/ bak[f] \in {"orig", "annot"}
AlwaysEnds == <>(phase \in {"done", "failed"})
Spec(C) == (\E c \in C : Begin(c)) /\ [][Next]_vars /\ WF_vars(Next)
==============================================================================
