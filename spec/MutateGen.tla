------------------------------ MODULE MutateGen ------------------------------
(* Random modules (functions of two packages whose lines are edited by an update, *)
(* between comments, literals and blocks), projects with tests, ways to run the    *)
(* mutation testing and faults; with the mutants and outcomes Mutate.tla allows.   *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json, IOUtils, CSV
VARIABLES fns, tests, left, opt
gvars == <<fns, tests, left, opt>>
R(S) == RandomElement(IF left = left THEN S ELSE {})

\* files 1, 2 are of the root package, file 3 of a package below
Pkg(file) == IF file = 3 THEN "sub" ELSE ""
Names == {"Do", "Done", "ReDo", "Run"}
Kinds == {"branch/if", "expression/comparison", "conditional/negated", "arithmetic/base"}
SlowKinds == {"arithmetic/assignment", "numbers/decrementer", "numbers/incrementer", "loop/break", "loop/condition", "loop/range_break", "branch/case", "expression/remove", "statement/remove"}
Elems == {"rec", "pair", "cmt", "gap", "raw", "rawtail", "blk", "trail", "paren"}
HasSlot == {"rec", "pair", "blk", "trail", "paren", "one"}
Fillers == {"cmt", "gap", "raw", "rawtail"}
\* places: function, element, which of the two of a pair
SlotsOf(f) == LET b == fns[f].body IN {<<f, e, 1>> : e \in {i \in 1..Len(b) : b[i].k \in HasSlot}} \cup {<<f, e, 2>> : e \in {i \in 1..Len(b) : b[i].k = "pair"}}
gFns == 1..Len(fns)
gSlots == UNION {SlotsOf(f) : f \in gFns}
El(s) == fns[s[1]].body[s[2]]
Chg(s) == IF s[3] = 1 THEN El(s).c1 ELSE El(s).c2
gFileOf(f) == fns[f].file
gTests == 1..Len(tests)
M == INSTANCE Mutate WITH cfg <- opt.cfg, phase <- "run", disk <- <<>>, bak <- <<>>, todo <- {}, cur <- "none", step <- "none", log <- <<>>
World == [slots |-> gSlots, fns |-> gFns, tests |-> gTests, fnOf |-> [s \in gSlots |-> s[1]], fileOf |-> [f \in gFns |-> fns[f].file], nameOf |-> [f \in gFns |-> fns[f].name]]

Init == fns = <<>> /\ tests = <<>> /\ left = 60 /\ opt = [cfg |-> <<>>]
\* a function: 4..6 of them
AddFn == /\ \E file \in {R(1..3)} : \E n \in {R(Names)} : \E rc \in {R({"", "", "T", "*U"})} : \E one \in {R(1..6)} : \E c \in {R({"edit", "same"})} : \E k \in {R(Kinds)} : \E tall \in {R(1..3)} : \E quiet \in {R(BOOLEAN)} :
              IF \E f \in gFns : Pkg(fns[f].file) = Pkg(file) /\ fns[f].name = n /\ fns[f].recv = rc THEN fns' = fns
              ELSE fns' = Append(fns, [file |-> file, name |-> n, recv |-> rc, tall |-> tall = 1, quiet |-> quiet,
                                       body |-> IF one = 1 THEN <<[k |-> "one", n |-> 1, c1 |-> IF quiet THEN "same" ELSE c, c2 |-> "same", ins |-> FALSE, kind |-> k]>> ELSE <<>>])
         /\ UNCHANGED tests
Plain(b) == b # <<>> /\ b[1].k = "one"
AddElem == /\ \E z \in {R(1..3)} : \E f \in {IF z = 1 THEN R(gFns) ELSE Len(fns)} : \E k \in {R(Elems \cup {"rec2", "rec3", "cmt2"})} : \E n \in {R(1..4)} : \E c1 \in {R({"same", "same2", "same3", "edit", "del"})} : \E c2 \in {R({"same", "edit"})} :
              \E i \in {R(1..4)} : \E kd \in {R(Kinds \cup SlowKinds)} :
              LET kk == CASE k \in {"rec2", "rec3"} -> "rec" [] k = "cmt2" -> "cmt" [] OTHER -> k
                  b == fns[f].body
                  c == IF fns[f].quiet \/ c1 \in {"same2", "same3"} THEN "same" ELSE IF kk # "rec" /\ c1 = "del" THEN "edit" ELSE c1
                  e == [k |-> kk, n |-> n, c1 |-> IF kk \in Fillers THEN "same" ELSE c, c2 |-> IF kk = "pair" /\ ~fns[f].quiet THEN c2 ELSE "same", ins |-> FALSE, kind |-> kd]
                  \* lines are added between two unchanged lines, or after the last
                  prev == IF Len(b) > 0 /\ i = 1 /\ ~fns[f].quiet /\ b[Len(b)].k = "rec" /\ b[Len(b)].c1 = "same" /\ kk = "rec" /\ e.c1 = "same" THEN [b EXCEPT ![Len(b)].ins = TRUE] ELSE b
              IN IF Plain(b) THEN fns' = fns ELSE fns' = [fns EXCEPT ![f].body = Append(prev, e)]
           /\ UNCHANGED tests
AddTest == /\ \E d \in {R({"", "", "in"})} : \E n \in {R({"TestA", "TestAB", "TestB", "Test_TestA"})} : \E cs \in {{f \in gFns : R({f, 0}) = f}} : \E ks \in {{s \in gSlots : R(IF s = s THEN 1..4 ELSE {}) = 1}} : \E h \in {R(1..4)} :
              IF \E t \in gTests : tests[t].dir = d /\ tests[t].name = n THEN tests' = tests
              ELSE tests' = Append(tests, [dir |-> d, name |-> n, covers |-> cs, kills |-> ks, hang |-> h = 1])
           /\ UNCHANGED fns
HasChange(f) == \E i \in 1..Len(fns[f].body) : LET e == fns[f].body[i] IN e.c1 # "same" \/ e.c2 # "same" \/ e.ins
\* the lines in scope: changed ones, and for the area those next to additions
Near(s) == /\ El(s).k = "rec" /\ \/ El(s).ins
                                 \/ s[2] > 1 /\ fns[s[1]].body[s[2] - 1].ins
Finish == /\ \E scope \in {R({"function", "line", "line2", "area"})} : \E fast \in {R(BOOLEAN)} : \E targ \in {R({1, 2, 3})} : \E bad \in {{s \in gSlots : R(IF s = s THEN 1..9 ELSE {}) = 1}} :
             \E fault \in {R({"none", "none2", "none3", "toolfail", "nosummary", "kill", "killfail", "nomutant"})} : \E at \in {R(1..4)} : \E rj \in {R(BOOLEAN)} : \E fl \in {R({"plain", "space", "quote", "dollar", "odd"})} : \E ws \in {R({"plain", "member", "spaced"})} :
             opt' = [scope |-> IF scope = "line2" THEN "line" ELSE scope, fault |-> IF fault \in {"none2", "none3"} THEN "none" ELSE fault, at |-> at, report |-> rj, flavour |-> fl, ws |-> ws,
                     cfg |-> World @@ [changed |-> {f \in gFns : HasChange(f)},
                              lines |-> {s \in gSlots : Chg(s) # "same" \/ (scope = "area" /\ Near(s))},
                              byLine |-> scope # "function", fast |-> fast, slow |-> {s \in gSlots : El(s).kind \in SlowKinds}, targeted |-> targ # 1,
                              covers |-> [t \in gTests |-> tests[t].covers], kills |-> [t \in gTests |-> tests[t].kills], broken |-> bad]]
          /\ UNCHANGED <<fns, tests>>
Next == /\ left > 0 /\ left' = left - 1
        /\ IF left = 1 THEN Finish
           ELSE /\ UNCHANGED opt
                /\ IF left < 7 THEN AddTest
                   ELSE IF left % 8 = 4 \/ fns = <<>> THEN AddFn ELSE AddElem
Spec == Init /\ [][Next]_gvars
----------------------------------------------------------------------------
\* tests of the same name as a selected one run with it
ByName(T) == {t \in gTests : \E u \in T : tests[u].name = tests[t].name}
SetSeq(S) == S
Consistent == left = 0 => \A s \in gSlots : M!InScope(s) => M!Offered(s)
Emit == left = 0 => CSVWrite("%1$s", <<ToJson([fns |-> fns, tests |-> tests, opt |-> [opt EXCEPT !.cfg = 0],
   changed |-> opt.cfg.changed, byline |-> opt.cfg.byLine, fast |-> opt.cfg.fast, targeted |-> opt.cfg.targeted, none |-> M!Targets = {}, files |-> M!PlanFiles,
   slots |-> {LET T == M!Selected(gFileOf(s[1])) IN
              [at |-> s, scope |-> M!InScope(s), namesake |-> ~M!InScope(s) /\ M!Namesake(s[1]) /\ M!Kind(s), broken |-> s \in opt.cfg.broken,
               tests |-> T, out |-> M!OutcomeOf(s, T), all |-> ByName(T), outall |-> M!OutcomeOf(s, ByName(T))] : s \in gSlots}])>>, IOEnv.OUT)
==============================================================================
