------------------------------ MODULE ReachGen ------------------------------
(* Random programs over dependency packages (d below m), project packages (q      *)
(* below p below cmd) and the tests of q and p, inside and outside the package,   *)
(* with the callers and tests that must and may be found.                         *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json, IOUtils, CSV, SequencesExt
VARIABLES nodes, edges, left, changed
vars == <<nodes, edges, left, changed>>
R(S) == RandomElement(IF left = left THEN S ELSE {})
RECURSIVE Grow(_, _, _)
Grow(S, Pairs, Stops) ==
  LET more == S \cup {p[1] : p \in {q \in Pairs : q[2] \in S /\ q[2] \notin Stops}}
  IN IF more = S THEN S ELSE Grow(more, Pairs, Stops)

\* where a function lies
Rank == [d |-> 0, m |-> 1, q |-> 2, qg |-> 2, tq |-> 2, p |-> 3, pg |-> 3, tp |-> 3, tqx |-> 4, tpx |-> 4, cmd |-> 4]
Deps == {"d", "m"}
Proj == {"q", "p", "cmd"}            \* functions that can be instrumented
Gen == {"qg", "pg"}                  \* functions of generated files
TestLoc == {"tq", "tp", "tqx", "tpx"}
Meths == {"val", "ptr", "gmeth", "kmeth", "priv"}
Plain == {"func", "gen", "lower"} \cup Meths
OnT == {"low", "suite"}              \* helpers that look like tests: func(*testing.T)
\* a function of location l may be named in location f
Sees(f, l) ==
  CASE l \in {"d", "m", "q", "qg", "p", "pg"} -> Rank[l] <= Rank[f]
    [] l = "cmd" -> f = "cmd"
    [] l = "tq" -> f \in {"tq", "tqx"}
    [] l = "tp" -> f \in {"tp", "tpx"}
    [] OTHER -> f = l
SamePkg(f, l) == LET P(x) == CASE x \in {"q", "qg", "tq"} -> "q" [] x \in {"p", "pg", "tp"} -> "p" [] OTHER -> x IN P(f) = P(l)
Calls == {"direct", "go", "defer", "lit", "litv"}
Dyn == {"named", "fval", "map", "field", "chan", "helper", "helperlit", "glob", "glit", "ret"}
MethStatic == {"mexpr", "embed"}
MethDyn == {"iface", "giface", "tparam", "iembed", "ctor"}
Lits == {"lit", "litv", "helperlit", "glit", "trun"}
\* the ways a call site in n may call c
Hows(n, c) ==
  IF c.kind \in OnT THEN (IF n.kind \in {"test"} \cup OnT /\ Sees(n.loc, c.loc) THEN {"direct", "defer", "trunref"} ELSE {})
  ELSE IF ~Sees(n.loc, c.loc) THEN (IF c.loc \in TestLoc \cup {"cmd"} \/ n.loc \in TestLoc \/ (c.kind = "lower" /\ ~SamePkg(n.loc, c.loc)) THEN {}
                                    ELSE {"glob"} \cup (IF c.kind \in Meths THEN {"giface"} ELSE {}))
  ELSE IF c.kind = "lower" /\ ~SamePkg(n.loc, c.loc) THEN {}
  ELSE IF c.kind = "priv" /\ ~SamePkg(n.loc, c.loc) THEN {"iface", "iembed", "tparam", "ctor"}
  ELSE Calls \cup (Dyn \ (IF n.loc \in TestLoc \/ c.loc \in TestLoc THEN {"glob"} ELSE {}))
       \cup (IF c.kind \in Meths THEN MethStatic \cup ((MethDyn \ {"ctor"}) \ (IF n.loc \in TestLoc \/ c.loc \in TestLoc THEN {"giface"} ELSE {})) ELSE {})
       \cup (IF n.kind \in {"test"} \cup OnT THEN {"trun"} ELSE {})
Callable(c) == c.kind \in Plain \cup OnT
Ids == 1..Len(nodes)
Must == {<<edges[e].from, edges[e].to>> : e \in 1..Len(edges)}
DynTo(k) == {n \in Ids : nodes[n].kind \in Plain /\ nodes[n].sig = k}
            \cup {edges[e].to : e \in {x \in 1..Len(edges) : edges[x].how \in Lits /\ nodes[edges[x].to].sig = k}}
MethTo(m, k) == {n \in Ids : nodes[n].kind \in Meths /\ nodes[n].sig = k /\ nodes[n].name = m}
MayTo(e) == LET c == nodes[e.to] IN
  IF e.how \in Dyn THEN DynTo(c.sig) \cup {e.to}
  ELSE IF e.how \in MethDyn THEN MethTo(c.name, c.sig) \cup {e.to}
  ELSE {e.to}
May == UNION {{<<edges[e].from, t>> : t \in MayTo(edges[e])} : e \in 1..Len(edges)}
Roots == {n \in Ids : nodes[n].kind \in {"init", "main", "test"}}
CanBeCaller(n) == nodes[n].loc \in Proj /\ nodes[n].kind \in Plain
MustCall(n) == {c \in changed : n \in Grow({c}, Must, Roots) /\ n # c}
MayCall(n) == {c \in changed : n \in Grow({c}, May, Roots) /\ n # c}
Callers == {n \in Ids : CanBeCaller(n)}
Tests == {n \in Ids : nodes[n].kind = "test"}
\* a test that runs subtests: the test runner calls any function of a test's signature
Runs == {n \in Ids : \E e \in 1..Len(edges) : edges[e].from = n /\ edges[e].how \in {"trun", "trunref"}}
AnyTest(t) == t \in Grow(Runs, May, {})
\* a test of q is linked without p, unless it imports it, so p has registered nothing there
Linked(t) == IF nodes[t].loc \in {"tq", "tqx"}
             THEN {<<edges[e].from, edges[e].to>> : e \in {x \in 1..Len(edges) : edges[x].how \notin {"glob", "giface"} \/ Sees(nodes[edges[x].from].loc, nodes[edges[x].to].loc)}}
             ELSE Must
MustTargets(t) == {c \in Callers : MustCall(c) # {} /\ t \in Grow({c}, Linked(t), Roots)}
MayTargets(t) == {c \in Callers : MayCall(c) # {} /\ t \in Grow({c}, May, Roots)}

Kind(l) == IF l \in TestLoc THEN R({"test", "test2", "test3", "func", "val", "low", "suite"})
           ELSE IF l = "cmd" THEN R({"main", "func", "init", "ptr"})
           ELSE IF l \in {"p", "q"} THEN R({"func", "func2", "val", "ptr", "gen", "gmeth", "init", "lower", "kmeth", "priv"})
           ELSE R({"func", "func2", "val", "ptr", "gen", "gmeth", "lower", "kmeth", "priv"})
Norm(k) == CASE k \in {"test2", "test3"} -> "test" [] k = "func2" -> "func" [] OTHER -> k
Init == nodes = <<>> /\ edges = <<>> /\ left = 40 /\ changed = {}
Locs == <<"d", "d", "m", "q", "q", "p", "p", "qg", "pg", "tq", "tp", "tqx", "tpx", "cmd", "m", "q", "p", "d", "tp", "tpx">>
AddNode == /\ left > 24 /\ left' = left - 1 /\ UNCHANGED <<edges, changed>>
           /\ \E l \in {IF left > 38 THEN "d" ELSE IF left > 35 THEN R({"p", "q"}) ELSE IF left = 35 THEN R(TestLoc) ELSE Locs[R(1..Len(Locs))]} :
              \E k0 \in {Kind(l)} : \E s \in {R(1..5)} : \E m \in {R({1, 2})} :
                LET k == Norm(k0) IN
                nodes' = IF k = "main" /\ \E n \in Ids : nodes[n].kind = "main" THEN nodes
                         ELSE Append(nodes, [loc |-> l, kind |-> k, sig |-> s, name |-> m])
\* call sites: half of them extend what is already reached from below
Below == Grow({n \in Ids : nodes[n].loc \in Deps}, Must, {})
AddEdge == /\ left \in 2..24 /\ left' = left - 1 /\ UNCHANGED <<nodes, changed>>
           /\ \E b \in {Below} : \E z \in {R(1..4)} :
              \E f \in {R(IF z = 1 /\ Tests # {} THEN Tests ELSE IF z = 2 /\ Ids # b THEN Ids \ b ELSE Ids)} :
              \E c \in {R(LET cs == {n \in Ids : Callable(nodes[n])}
                           bs == IF z = 1 THEN cs \cap (b \cup {n \in Ids : nodes[n].kind \in OnT}) ELSE IF z = 2 THEN cs \cap b ELSE cs IN IF bs = {} THEN cs ELSE bs)} :
                LET hs == Hows(nodes[f], nodes[c]) IN
                IF hs = {} THEN edges' = edges
                ELSE \E h \in {R(hs)} : edges' = Append(edges, [from |-> f, to |-> c, how |-> h, n |-> left])
\* changed functions: some of those in the dependencies
Mark == /\ left = 1 /\ left' = 0 /\ UNCHANGED <<nodes, edges>>
        /\ \E ds \in {{n \in Ids : nodes[n].loc \in Deps /\ nodes[n].kind \in Plain}} :
             changed' = {n \in ds : R(IF n = n THEN {1, 2, 3} ELSE {}) = 1} \cup (IF ds = {} THEN {} ELSE {R(ds)})
Next == AddNode \/ AddEdge \/ Mark
Spec == Init /\ [][Next]_vars
\* what has to be found is allowed to be found
Consistent == left = 0 => \A n \in Ids : MustCall(n) \subseteq MayCall(n) /\ MustTargets(n) \subseteq MayTargets(n)
Emit == left = 0 => CSVWrite("%1$s", <<ToJson([nodes |-> nodes, edges |-> edges, changed |-> changed,
   callers |-> [n \in Ids |-> [can |-> CanBeCaller(n), must |-> MustCall(n), may |-> MayCall(n)]],
   tests |-> [n \in Ids |-> [any |-> AnyTest(n), must |-> IF n \in Tests THEN MustTargets(n) ELSE {}, may |-> IF n \in Tests THEN MayTargets(n) ELSE {}]]])>>, IOEnv.OUT)
==============================================================================
