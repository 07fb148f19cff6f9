------------------------------ MODULE MutateMC ------------------------------
\* exhaustive: two files, three functions (two of one name), two places each
EXTENDS Naturals, FiniteSets, Sequences, TLC
VARIABLES cfg, phase, disk, bak, todo, cur, step, log
mcFns == {"f", "g", "h"}
mcSlots == {"f1", "f2", "g1", "h1"}
mcFnOf(s) == CASE s \in {"f1", "f2"} -> "f" [] s = "g1" -> "g" [] OTHER -> "h"
mcFileOf(f) == IF f = "h" THEN "B" ELSE "A"
mcNameOf(f) == IF f = "g" THEN "Done" ELSE "Do"
mcTests == {"t", "u"}
INSTANCE Mutate
World == [slots |-> mcSlots, fns |-> mcFns, tests |-> mcTests, fnOf |-> [s \in mcSlots |-> mcFnOf(s)], fileOf |-> [f \in mcFns |-> mcFileOf(f)], nameOf |-> [f \in mcFns |-> mcNameOf(f)]]
Cfgs == {c \in [changed : SUBSET mcFns, lines : {{}, {"f1"}, {"f1", "g1"}, {"f2", "h1"}}, byLine : BOOLEAN, fast : {TRUE}, slow : {{}, {"f2"}},
                targeted : BOOLEAN, covers : [mcTests -> {{}, {"f"}, {"h", "g"}}], kills : {[t |-> {"f1", "h1"}, u |-> {"f2", "g1"}]}, broken : {{}, {"g1"}}] :
          c.lines \subseteq {s \in mcSlots : mcFnOf(s) \in c.changed}}
\* fewer scenarios, for the check on every change
QuickCfgs == {c \in Cfgs : c.changed # {} /\ c.changed # {"g"} /\ (c.byLine => c.lines # {}) /\ (~c.byLine => c.lines = {}) /\ c.covers["u"] # {"f"} /\ c.covers["t"] # {} /\ c.kills["t"] # {} /\ c.broken # {}}
QuickSpec == (\E c \in QuickCfgs : Begin(c @@ World)) /\ [][Next]_vars /\ WF_vars(Next)
MCSpec == (\E c \in Cfgs : Begin(c @@ World)) /\ [][Next]_vars /\ WF_vars(Next)
=============================================================================
