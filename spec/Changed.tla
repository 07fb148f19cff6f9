------------------------------- MODULE Changed -------------------------------
(* Which functions of a module changed between two versions, and which modules   *)
(* are looked at when an update pulls further updates with it.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
\* ---- a version of a module: function identity -> where it is and what it says ----
\* [file, ptr, sig, body, doc, pad]; identity <<pkg, type, name>>, type "" for a plain function
Seen(f) == f.file \in {"a.go", "b.go"}                     \* not a test file, not another platform
Text(f) == <<f.ptr, f.sig, f.body>>
Common(old, new) == {i \in DOMAIN old \cap DOMAIN new : Seen(old[i]) /\ Seen(new[i])}
ChangedFns(old, new) == {i \in Common(old, new) : Text(old[i]) # Text(new[i])}
\* lines of a definition: header, body, return, closing brace
LinesOf(f) == <<<<"h", f.ptr, f.sig>>>> \o [k \in 1..Len(f.body) |-> <<"b", f.body[k], 0>>] \o <<<<"r", 0, 0>>, <<"e", 0, 0>>>>
Range(s) == {s[k] : k \in 1..Len(s)}
Idx(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
\* lines are distinct and never reordered, so a line survived iff it is still there; where text was only
\* inserted, the lines around the gap count as touched up to the radius
Touched(o, n, radius) ==
    {k \in 1..Len(o) : o[k] \notin Range(n)}
    \cup UNION {{j \in 1..Len(o) : j > k - radius /\ j <= k + radius} :
                k \in {x \in 1..(Len(o) - 1) : o[x] \in Range(n) /\ o[x + 1] \in Range(n) /\ Idx(n, o[x + 1]) > Idx(n, o[x]) + 1}}
\* ---- updates that follow from updates ----
\* deps[m][v] : module -> version, proj : module -> version, a change is [m, old, new]
Pulled(deps, proj, c) == {[m |-> d, old |-> proj[d], new |-> deps[c.m][c.new][d]] :
    d \in {x \in DOMAIN deps[c.m][c.new] : /\ x \notin DOMAIN deps[c.m][c.old] \/ deps[c.m][c.old][x] # deps[c.m][c.new][x]
                                           /\ x \in DOMAIN proj /\ proj[x] # deps[c.m][c.new][x]}}
Names(cs) == {c.m : c \in cs}
RECURSIVE Closure(_, _, _, _)
\* level by level; the version wanted more directly wins.  amb: one level wants a module at two versions
Closure(deps, proj, done, level) ==
    LET next == {c \in UNION {Pulled(deps, proj, x) : x \in level} : c.m \notin Names(done)}
    IN IF next = {} THEN [all |-> done, amb |-> FALSE]
       ELSE IF \E a, b \in next : a.m = b.m /\ a # b THEN [all |-> done \cup next, amb |-> TRUE]
       ELSE Closure(deps, proj, done \cup next, next)
RECURSIVE FirstOf(_, _)
FirstOf(reqs, acc) == IF reqs = <<>> THEN acc ELSE FirstOf(Tail(reqs), IF Head(reqs).m \in Names(acc) THEN acc ELSE acc \cup {Head(reqs)})
Analysed(deps, proj, reqs, transitive) == LET first == FirstOf(reqs, {}) IN
    IF transitive THEN Closure(deps, proj, first, first) ELSE [all |-> first, amb |-> FALSE]
==============================================================================
