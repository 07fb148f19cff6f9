-------------------------------- MODULE Report --------------------------------
(* The report of an analysis. An outcome o is everything the stages found; the      *)
(* writer goes through callers, tests and results in any order, adds up what they   *)
(* say and then writes the files, which can fail. What is written must be what      *)
(* Doc(o) says, a function of the outcome alone.                                    *)
EXTENDS Naturals, Integers, FiniteSets, Sequences, TLC
VARIABLES o, phase, todoC, todoT, todoR, acc, files, err
wvars == <<o, phase, todoC, todoT, todoR, acc, files, err>>

RECURSIVE Sum(_, _)
Sum(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + Sum(f, D \ {x})
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

\* o.upd      updated modules, a sequence of [name, indirect]
\* o.funcs    checked module -> number of changed functions
\* o.callers  caller -> changed functions <<module, number>> it reaches
\* o.tests    test -> [gen] (generated or not)
\* o.res      test -> [pre, post (failed), hit, calls : caller -> [same, chg, lost, fresh, t1, t2], pan]
\* o.mut      [count, squashed], o.reached, o.untracked, o.checks, o.mult
Changed(x) == Sum(x.funcs, DOMAIN x.funcs)
\* where the analysis ended
Ended(x) == IF Changed(x) = 0 THEN "modules" ELSE IF DOMAIN x.callers = {} THEN "callers" ELSE IF DOMAIN x.tests = {} THEN "tests" ELSE "full"
WellFormed(x) ==
  /\ \A c \in DOMAIN x.callers : x.callers[c] # {} /\ \A f \in x.callers[c] : f[1] \in DOMAIN x.funcs /\ f[2] \in 1..x.funcs[f[1]]
  /\ Ended(x) \in {"modules", "callers"} => DOMAIN x.callers = {} /\ DOMAIN x.tests = {}
  /\ Ended(x) # "full" => DOMAIN x.res = {} /\ x.mut = [count |-> 0, squashed |-> 0] /\ x.reached = 0 /\ x.untracked = 0 /\ x.checks = 0
  /\ DOMAIN x.res \subseteq DOMAIN x.tests
  /\ x.mut.squashed <= x.mut.count

----------------------------------------------------------------------------
\* one result
SameOf(r) == Sum([c \in DOMAIN r.calls |-> r.calls[c].same], DOMAIN r.calls)
DiffOf(r) == r.pan + Sum([c \in DOMAIN r.calls |-> r.calls[c].chg + r.calls[c].lost], DOMAIN r.calls)
\* fields with a different value, by caller (1..chg name them)
FieldsOf(r) == [c \in {c \in DOMAIN r.calls : r.calls[c].chg > 0} |-> r.calls[c].chg]
Regression(r) == ~r.pre /\ r.post
AtLeast1(n) == IF n < 1 THEN 1 ELSE n
Slower(k, m) == k.t1 > 0 /\ k.t2 > 0 /\ AtLeast1(k.t1) * m < k.t2
Faster(k, m) == k.t1 > 0 /\ k.t2 > 0 /\ k.t1 > AtLeast1(k.t2) * m
Perf(x, t) == {[test |-> t, caller |-> c, pre |-> x.res[t].calls[c].t1, post |-> x.res[t].calls[c].t2] :
                 c \in {c \in DOMAIN x.res[t].calls : Slower(x.res[t].calls[c], x.mult) \/ Faster(x.res[t].calls[c], x.mult)}}
Detail(r) == [baseline |-> r.pre, regression |-> Regression(r), diff |-> DiffOf(r), hit |-> r.hit, fields |-> FieldsOf(r)]
Risky(r) == Regression(r) \/ DiffOf(r) > 0

Root(x) == LET D == {i \in 1..Len(x.upd) : ~x.upd[i].indirect} IN
           IF Len(x.upd) = 1 THEN x.upd[1].name ELSE IF Cardinality(D) = 1 THEN x.upd[CHOOSE i \in D : TRUE].name ELSE ""
Reachable(x) == UNION {x.callers[c] : c \in DOMAIN x.callers}
Doc(x) ==
  [root |-> Root(x), modules |-> DOMAIN x.funcs, changed |-> Changed(x), reachable |-> Reachable(x), untracked |-> x.untracked, reached |-> x.reached,
   callers |-> DOMAIN x.callers, tests |-> DOMAIN x.tests, gen |-> Cardinality({t \in DOMAIN x.tests : x.tests[t].gen}), checks |-> x.checks,
   same |-> Sum([t \in DOMAIN x.res |-> SameOf(x.res[t])], DOMAIN x.res), diff |-> Sum([t \in DOMAIN x.res |-> DiffOf(x.res[t])], DOMAIN x.res),
   mut |-> x.mut, perf |-> UNION {Perf(x, t) : t \in DOMAIN x.res}, details |-> [t \in DOMAIN x.res |-> Detail(x.res[t])]]
\* what the charts say: parts of totals, milliseconds before and after, and the risky tests
PerfSum(d, f(_)) == LET P == d.perf IN Sum([p \in P |-> f(p)], P)
Charts(d) ==
  [impact |-> <<Cardinality(d.reachable), d.changed>>, coverage |-> <<d.reached + d.untracked, Cardinality(d.reachable)>>,
   stability |-> <<d.same, d.same + d.diff>>, mutation |-> <<d.mut.squashed, d.mut.count>>,
   time |-> <<PerfSum(d, LAMBDA p : p.pre), PerfSum(d, LAMBDA p : p.post)>>,
   risky |-> {t \in DOMAIN d.details : d.details[t].regression \/ d.details[t].diff > 0}]

----------------------------------------------------------------------------
\* the writer
Begin(x) == /\ o = x /\ phase = "collect" /\ todoC = DOMAIN x.callers /\ todoT = DOMAIN x.tests /\ todoR = DOMAIN x.res /\ err = FALSE
            /\ acc = [reachable |-> {}, callers |-> {}, tests |-> {}, gen |-> 0, same |-> 0, diff |-> 0, perf |-> {}, details |-> [t \in {} |-> 0]]
            /\ files = [json |-> "old", chart |-> "old"]
TakeCaller(c) == /\ phase = "collect" /\ c \in todoC /\ todoC' = todoC \ {c}
                 /\ acc' = [acc EXCEPT !.reachable = @ \cup o.callers[c], !.callers = @ \cup {c}] /\ UNCHANGED <<o, phase, todoT, todoR, files, err>>
TakeTest(t) == /\ phase = "collect" /\ t \in todoT /\ todoT' = todoT \ {t}
               /\ acc' = [acc EXCEPT !.tests = @ \cup {t}, !.gen = @ + IF o.tests[t].gen THEN 1 ELSE 0] /\ UNCHANGED <<o, phase, todoC, todoR, files, err>>
TakeResult(t) == /\ phase = "collect" /\ t \in todoR /\ todoR' = todoR \ {t}
                 /\ acc' = [acc EXCEPT !.same = @ + SameOf(o.res[t]), !.diff = @ + DiffOf(o.res[t]), !.perf = @ \cup Perf(o, t), !.details = @ @@ (t :> Detail(o.res[t]))]
                 /\ UNCHANGED <<o, phase, todoC, todoT, files, err>>
Written == [root |-> Root(o), modules |-> DOMAIN o.funcs, changed |-> Changed(o), reachable |-> acc.reachable, untracked |-> o.untracked, reached |-> o.reached,
            callers |-> acc.callers, tests |-> acc.tests, gen |-> acc.gen, checks |-> o.checks, same |-> acc.same, diff |-> acc.diff, mut |-> o.mut,
            perf |-> acc.perf, details |-> acc.details]
WriteJson(ok) == /\ phase = "collect" /\ todoC \cup todoT \cup todoR = {} /\ phase' = (IF ok THEN "chart" ELSE "end") /\ err' = ~ok
                 /\ files' = [files EXCEPT !.json = IF ok THEN "new" ELSE "part"] /\ UNCHANGED <<o, todoC, todoT, todoR, acc>>
WriteChart(ok) == /\ phase = "chart" /\ phase' = "end" /\ err' = ~ok /\ files' = [files EXCEPT !.chart = IF ok THEN "new" ELSE "part"]
                  /\ UNCHANGED <<o, todoC, todoT, todoR, acc>>
WNext == (\E c \in todoC : TakeCaller(c)) \/ (\E t \in todoT : TakeTest(t)) \/ (\E t \in todoR : TakeResult(t))
         \/ (\E ok \in BOOLEAN : WriteJson(ok) \/ WriteChart(ok))

\* whatever the order, the report is the one of the outcome; totals are those of the details
SameReport == phase \in {"chart", "end"} => Written = Doc(o)
TotalsAgree == phase = "end" => LET d == Written IN
  /\ d.diff = Sum([t \in DOMAIN d.details |-> d.details[t].diff], DOMAIN d.details)
  /\ \A t \in DOMAIN d.details : d.details[t].diff >= Sum(d.details[t].fields, DOMAIN d.details[t].fields) /\ t \in d.tests
  /\ \A p \in d.perf : p.test \in DOMAIN d.details
  /\ Cardinality(d.reachable) <= d.changed /\ (d.reachable # {} <=> d.callers # {})
  /\ d.gen <= Cardinality(d.tests) /\ d.mut.squashed <= d.mut.count
  /\ Charts(d).coverage[1] <= Charts(d).coverage[2]
CompleteOrError == phase = "end" => (err <=> \E f \in {"json", "chart"} : files[f] = "part") /\ (~err => files = [json |-> "new", chart |-> "new"])
==============================================================================
