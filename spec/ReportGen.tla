------------------------------ MODULE ReportGen ------------------------------
(* Random outcomes of an analysis, found one thing after the other, with the report *)
(* they must lead to and the files it is to be written to.                          *)
EXTENDS Report, Json, IOUtils, CSV
VARIABLES st, left, plan
gvars == <<o, phase, todoC, todoT, todoR, acc, files, err, st, left, plan>>
R(S) == RandomElement(IF left = left THEN S ELSE {})
None == [t \in {} |-> 0]
Mods == <<"example.com/a", "example.com/b/v2", "ex.org/C", "example.com/a/sub">>
Extra == {"example.com/t", "golang.org/x/t"}
CallerNames == <<"A", "B", "C", "D", "E">>
TestNames == <<"T1", "T2", "T3", "T4", "T5", "T6", "T7", "T8", "T9", "T10", "T11", "T12", "T13", "T14">>
Zero == [upd |-> <<>>, funcs |-> None, callers |-> None, tests |-> None, res |-> None, mut |-> [count |-> 0, squashed |-> 0], reached |-> 0, untracked |-> 0, checks |-> 0, mult |-> 2]
Init == /\ o = Zero /\ phase = "gen" /\ todoC = {} /\ todoT = {} /\ todoR = {} /\ acc = 0 /\ files = 0 /\ err = FALSE
        /\ st = "mods" /\ left = 0 /\ plan = [json |-> "ok", chart |-> "svg"]
Keep == UNCHANGED <<phase, todoC, todoT, todoR, acc, files, err>>
\* updated modules: a sample of the names, in any order
AddMod == /\ st = "mods" /\ Keep /\ UNCHANGED plan
          /\ \E k \in {R(1..5)}, m \in {R({Mods[i] : i \in 1..4} \ {o.upd[i].name : i \in 1..Len(o.upd)})}, ind \in {R(BOOLEAN)}, n \in {R({0, 1, 1, 2, 3, 7})} :
               /\ o' = [o EXCEPT !.upd = Append(@, [name |-> m, indirect |-> ind]), !.funcs = @ @@ (m :> n)]
               /\ st' = (IF k <= 2 \/ Len(o.upd) = 2 THEN "extra" ELSE "mods") /\ left' = left
AddExtra == /\ st = "extra" /\ Keep /\ UNCHANGED plan
            /\ \E k \in {R(1..4)}, e \in {R(Extra)}, n \in {R(0..2)}, big \in {R(1..9)} :
                 /\ o' = IF k = 1 THEN [o EXCEPT !.funcs = @ @@ (e :> n)] ELSE IF big = 1 THEN [o EXCEPT !.funcs[o.upd[1].name] = 40] ELSE o
                 /\ st' = "callers" /\ left' = left
Fns == {<<m, i>> : m \in DOMAIN o.funcs, i \in 1..40} \cap UNION {{<<m, i>> : i \in 1..o.funcs[m]} : m \in DOMAIN o.funcs}
StartCallers == /\ st = "callers" /\ Keep /\ UNCHANGED <<o, plan>>
                /\ IF Changed(o) = 0 THEN st' = "files" /\ left' = 0 ELSE \E n \in {R(0..5)} : st' = "caller" /\ left' = n
\* (drawn one function at a time, the set is built by several draws)
AddCaller == /\ st = "caller" /\ Keep /\ UNCHANGED plan
             /\ IF left = 0 THEN o' = o /\ st' = "tests" /\ left' = 0
                ELSE \E f \in {R(Fns)}, g \in {R(Fns)}, h \in {R(Fns)}, k \in {R(1..8)} :
                       /\ o' = [o EXCEPT !.callers = @ @@ (CallerNames[left] :> IF k = 1 THEN Fns ELSE IF k <= 4 THEN {f} ELSE {f, g, h})]
                       /\ st' = st /\ left' = left - 1
StartTests == /\ st = "tests" /\ Keep /\ UNCHANGED <<o, plan>>
              /\ IF DOMAIN o.callers = {} THEN st' = "files" /\ left' = 0 ELSE \E n \in {R({0, 1, 2, 3, 4, 5, 6, 14})} : st' = "test" /\ left' = n
Times == {0, 0, 1, 2, 3, 40, 100, 101, 900, 2500, 70000, 200000}
RCall == [same |-> R(0..3), chg |-> R({0, 0, 1, 2}), lost |-> R({0, 0, 0, 1}), fresh |-> R({0, 0, 1}), t1 |-> R(Times), t2 |-> R(Times)]
QCall == [same |-> R(0..3), chg |-> 0, lost |-> 0, fresh |-> R({0, 0, 1}), t1 |-> R({0, 5}), t2 |-> R({0, 5})]
RCalls(quiet) == [C \in SUBSET DOMAIN o.callers |-> [c \in C |-> IF quiet THEN QCall ELSE RCall]][R(SUBSET DOMAIN o.callers)]
AddTest == /\ st = "test" /\ Keep /\ UNCHANGED plan
           /\ IF left = 0 THEN o' = o /\ st' = "last" /\ left' = 0
              ELSE \E g \in {R(1..4)}, k \in {R(1..6)}, pre \in {R(1..5)}, post \in {R(1..4)}, hit \in {R(0..4)}, pan \in {R({0, 0, 0, 1, 2, 11})}, quiet \in {R(1..3)} :
                   \E calls \in {TLCEval(RCalls(quiet = 1))} :
                     /\ o' = [o EXCEPT !.tests = @ @@ (TestNames[left] :> [gen |-> g = 1]),
                                       !.res = IF k = 1 THEN @ ELSE @ @@ (TestNames[left] :> [pre |-> pre = 1, post |-> post = 1, hit |-> hit, calls |-> calls, pan |-> IF quiet = 1 THEN 0 ELSE pan])]
                     /\ st' = st /\ left' = left - 1
Last == /\ st = "last" /\ Keep /\ UNCHANGED plan /\ st' = "files" /\ left' = left
        /\ IF DOMAIN o.tests = {} THEN o' = o
           ELSE \E a \in {R(0..Cardinality(Reachable(o)))}, c \in {R(0..200)}, n \in {R({0, 0, 1, 2, 3, 7, 1000, 3000})} :
                \E b \in {R(0..(Cardinality(Reachable(o)) - a))}, s \in {R({0, n, n \div 2, IF n > 0 THEN n - 1 ELSE 0})} :
                  o' = [o EXCEPT !.reached = a, !.untracked = b, !.checks = c, !.mut = [count |-> n, squashed |-> s]]
Files == /\ st = "files" /\ Keep /\ st' = "done" /\ UNCHANGED <<o, left>>
         /\ \E j \in {R({"ok", "ok", "stale", "link", "none", "full", "dir"})}, k \in {R(1..3)}, c \in {R({"svg", "png", "jpg", "jpeg", "stale", "none", "full", "dir", "ext"})} :
              plan' = IF k <= 2 THEN [json |-> R({"ok", "stale"}), chart |-> "svg"] ELSE [json |-> j, chart |-> c]
Done == st = "done" /\ UNCHANGED gvars
GNext == AddMod \/ AddExtra \/ StartCallers \/ AddCaller \/ StartTests \/ AddTest \/ Last \/ Files
GSpec == Init /\ [][GNext]_gvars
Bad(k) == k \in {"full", "dir", "ext"}
Valid == st = "done" => WellFormed(o)
Emit == st = "done" => CSVWrite("%1$s", <<ToJson([o |-> o, end |-> Ended(o), doc |-> Doc(o), charts |-> Charts(Doc(o)), plan |-> plan, fails |-> Bad(plan.json) \/ Bad(plan.chart)])>>, IOEnv.OUT)
===============================================================================
