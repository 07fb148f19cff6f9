-------------------------------- MODULE Engine -------------------------------
(* One analysis run: stages in order, each of which may succeed, find nothing to *)
(* do, or fail; whatever was acquired is released in reverse order.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Order == <<"prepare", "tmp", "initial", "modules", "callers", "tests", "storage", "update", "mutation", "compare", "report">>
Holding == {"tmp", "modules", "callers", "tests", "storage", "update", "mutation"}   \* stages with something to release
Outcomes(s) == CASE s \in {"initial", "modules", "callers", "tests"} -> {"ok", "none", "err"} [] OTHER -> {"ok", "err"}
Sources == {"flag", "list", "gomod", "gowork"}
Configs == [src : Sources, scope : {"none", "line", "area", "function"}, mode : {"full", "fast"}, mt : {"full", "targeted"}, tmp : BOOLEAN, data : {1, 2}]
Skipped(cfg, s) == (s = "tmp" /\ ~cfg.tmp) \/ (s = "mutation" /\ cfg.scope = "none")
VARIABLES cfg, pc, log, held, out, err, rep
vars == <<cfg, pc, log, held, out, err, rep>>
NoRep == "no"
Init == cfg \in Configs /\ pc = 1 /\ log = <<>> /\ held = <<>> /\ out = [s \in {} |-> ""] /\ err = FALSE /\ rep = NoRep
Running == pc >= 1 /\ pc <= Len(Order)
Unwinding == pc = Len(Order) + 1
Done == pc = Len(Order) + 2
Stage == Order[pc]
Skip == Running /\ Skipped(cfg, Stage) /\ pc' = pc + 1 /\ UNCHANGED <<cfg, log, held, out, err, rep>>
ReportAt == Len(Order)
\* what a report written after "nothing to do" in a stage has to hold
Step(o) ==
  /\ Running /\ ~Skipped(cfg, Stage) /\ o \in Outcomes(Stage)
  /\ log' = Append(log, <<"run", Stage>>) /\ out' = out @@ (Stage :> o)
  /\ held' = IF o # "err" /\ Stage \in Holding THEN Append(held, Stage) ELSE held
  /\ err' = (err \/ o = "err")
  /\ rep' = IF Stage = "report" /\ rep = NoRep THEN "full" ELSE IF o = "none" /\ Stage # "initial" THEN Stage ELSE rep
  /\ pc' = IF o = "err" \/ Stage = "report" THEN Len(Order) + 1
           ELSE IF o = "none" THEN (IF Stage = "initial" THEN Len(Order) + 1 ELSE ReportAt) ELSE pc + 1
  /\ UNCHANGED cfg
Release == Unwinding /\ held # <<>> /\ log' = Append(log, <<"release", held[Len(held)]>>) /\ held' = SubSeq(held, 1, Len(held) - 1)
           /\ UNCHANGED <<cfg, pc, out, err, rep>>
End == Unwinding /\ held = <<>> /\ pc' = pc + 1 /\ UNCHANGED <<cfg, log, held, out, err, rep>>
Next == Skip \/ (\E o \in {"ok", "none", "err"} : Step(o)) \/ Release \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- what a run promises ----
Count(e) == Cardinality({i \in 1..Len(log) : log[i] = e})
Pos(e) == CHOOSE i \in 1..Len(log) : log[i] = e
ReleasedOnce == Done => \A s \in Holding : Count(<<"release", s>>) = (IF s \in DOMAIN out /\ out[s] # "err" THEN 1 ELSE 0)
Reverse == Done => \A s, t \in Holding : Count(<<"release", s>>) = 1 /\ Count(<<"release", t>>) = 1 /\ Pos(<<"run", s>>) < Pos(<<"run", t>>)
                     => Pos(<<"release", t>>) < Pos(<<"release", s>>)
NothingAfterFailure == \A i, j \in 1..Len(log) : i < j /\ log[j][1] = "run" => out[log[i][2]] # "err"
ErrIffFailed == Done => (err <=> \E s \in DOMAIN out : out[s] = "err")
ReportOnce == Done => Count(<<"run", "report">>) = (IF (\A s \in DOMAIN out \ {"report"} : out[s] # "err") /\ out["initial"] = "ok" THEN 1 ELSE 0)
Terminates == <>Done
==============================================================================
