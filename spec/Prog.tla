-------------------------------- MODULE Prog ---------------------------------
(* A small imperative language (the statement forms of Go functions), what a     *)
(* function of it does when called, and what an instrumented copy must report.   *)
(* The log of a call interleaves the observable effects of the function with the *)
(* events of the instrumentation: entry, the state at each return (the values    *)
(* returned and the variables in scope), and a panic that leaves the function.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Max(a, b) == IF a > b THEN a ELSE b
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
\* ---------------- environments: a stack of scopes ----------------
RECURSIVE Look(_, _)
Look(env, x) == IF x \in DOMAIN Last(env) THEN Last(env)[x] ELSE Look(Front(env), x)
RECURSIVE Put(_, _, _)
Put(env, x, v) == IF x \in DOMAIN Last(env) THEN [env EXCEPT ![Len(env)] = [Last(env) EXCEPT ![x] = v]]
                  ELSE Append(Put(Front(env), x, v), Last(env))
Declare(env, x, v) == [env EXCEPT ![Len(env)] = (x :> v) @@ Last(env)]
RECURSIVE Visible(_)
Visible(env) == IF env = <<>> THEN [x \in {} |-> 0] ELSE Last(env) @@ Visible(Front(env))
Push(st) == [st EXCEPT !.env = Append(@, [x \in {} |-> 0])]
Pop(st) == [st EXCEPT !.env = Front(@)]
Log(st, e) == [st EXCEPT !.log = Append(@, e)]
Panic(st, m) == [st EXCEPT !.sig = "panic", !.pv = m]
DivMsg == "runtime error: integer divide by zero"
\* ---------------- expressions: [v, st] ----------------
\* e(n, a) reports n and a and yields a + n % 2
Eff(st, n, a) == [v |-> a + (n % 2), st |-> Log(st, [k |-> "e", n |-> n, a |-> a])]
RECURSIVE Eval(_, _)
Eval(x, st) ==
    IF st.sig # "next" THEN [v |-> 0, st |-> st] ELSE
    CASE x.k = "lit" -> [v |-> x.n, st |-> st]
      [] x.k = "var" -> [v |-> Look(st.env, x.x), st |-> st]
      [] x.k = "add" -> LET a == Eval(x.a, st) b == Eval(x.b, a.st) IN [v |-> a.v + b.v, st |-> b.st]
      [] x.k = "eff" -> LET a == Eval(x.a, st) IN IF a.st.sig # "next" THEN a ELSE Eff(a.st, x.n, a.v)
      [] x.k = "div" -> LET a == Eval(x.a, st) b == Eval(x.b, a.st) IN
                        IF b.st.sig # "next" THEN b ELSE IF b.v = 0 THEN [v |-> 0, st |-> Panic(b.st, DivMsg)] ELSE [v |-> a.v \div b.v, st |-> b.st]
      \* func() int { y := a; if y > 1 { return e(n, y) }; return y + 7 }()
      [] x.k = "clo" -> LET a == Eval(x.a, st) IN IF a.st.sig # "next" THEN a ELSE IF a.v > 1 THEN Eff(a.st, x.n, a.v) ELSE [v |-> a.v + 7, st |-> a.st]
RECURSIVE EvalAll(_, _, _)
EvalAll(xs, acc, st) == IF xs = <<>> THEN [v |-> acc, st |-> st] ELSE LET a == Eval(Head(xs), st) IN EvalAll(Tail(xs), Append(acc, a.v), a.st)
\* [v |-> BOOLEAN, st]
Cond(c, st) == LET a == Eval(c.a, st) IN [v |-> IF c.op = ">" THEN a.v > c.n ELSE a.v = c.n, st |-> a.st]
\* ---------------- statements ----------------
\* signals: next, brk, cont, ret, panic; lab "" means the innermost
Hidden == -999                                          \* a name that does not stand for a number here
Shown(env) == LET v == Visible(env) IN [x \in {y \in DOMAIN v : y # "_0" /\ v[y] # Hidden} |-> v[x]]
Quiet(st) == [st EXCEPT !.sig = "next", !.lab = ""]
Stops(st, sig, l) == st.sig = sig /\ (st.lab = "" \/ st.lab = l)
AfterBreak(st, l) == IF Stops(st, "brk", l) THEN Quiet(st) ELSE st
AfterBody(st, l) == IF Stops(st, "cont", l) THEN Quiet(st) ELSE st
ResName(f, i) == IF i = 1 /\ f.blank THEN "_0" ELSE IF i = 1 THEN "r0" ELSE "r1"
NamedVals(f, env) == [i \in 1..Len(f.res) |-> env[1][ResName(f, i)]]
RECURSIVE SetAll(_, _, _, _)
SetAll(f, env, vals, i) == IF i > Len(vals) THEN env ELSE SetAll(f, [env EXCEPT ![1] = [@ EXCEPT ![ResName(f, i)] = vals[i]]], vals, i + 1)
\* leaving through exit ex with vals: the state is reported first, then named results take the values
Leave(st, ex, vals) ==
    IF st.sig # "next" THEN st ELSE
    LET a == Log(st, [k |-> "s", ex |-> ex, vals |-> vals, vis |-> Shown(st.env)]) IN
    [a EXCEPT !.sig = "ret", !.vals = vals, !.env = IF st.f.named THEN SetAll(st.f, @, vals, 1) ELSE @]
RECURSIVE Exec(_, _), Run(_, _), Times(_, _, _), For(_, _, _), Range(_, _, _), Clauses(_, _, _), Call(_, _, _, _, _)
Scoped(ss, st) == Pop(Run(ss, Push(st)))
With(x, v, ss, st) == Pop(Run(ss, LET p == Push(st) IN [p EXCEPT !.env = Declare(@, x, v)]))
Run(ss, st) == IF ss = <<>> \/ st.sig # "next" THEN st ELSE Run(Tail(ss), Exec(Head(ss), st))
For(s, i, st) == IF i >= s.n \/ st.sig # "next" THEN st ELSE For(s, i + 1, AfterBody(With(s.x, i, s.body, st), s.lab))
Times(s, i, st) == IF i >= s.n \/ st.sig # "next" THEN st ELSE Times(s, i + 1, AfterBody(Scoped(s.body, st), s.lab))
Range(s, xs, st) == IF xs = <<>> \/ st.sig # "next" THEN st ELSE Range(s, Tail(xs), AfterBody(With(s.x, Head(xs), s.body, st), s.lab))
Clauses(cs, i, st) == LET r == Scoped(cs[i].body, st) IN IF r.sig = "next" /\ cs[i].fall THEN Clauses(cs, i + 1, r) ELSE r
Exec(s, st) ==
    CASE s.k = "tr" -> LET a == Eval(s.a, st) IN IF a.st.sig # "next" THEN a.st ELSE Eff(a.st, s.n, a.v).st
      [] s.k = "decl" -> LET a == Eval(s.a, st) IN IF a.st.sig # "next" THEN a.st ELSE [a.st EXCEPT !.env = Declare(@, s.x, a.v)]
      [] s.k = "set" -> LET a == Eval(s.a, st) IN IF a.st.sig # "next" THEN a.st ELSE [a.st EXCEPT !.env = Put(@, s.x, a.v)]
      [] s.k = "noise" -> st
      [] s.k = "cls" -> LET a == Eval(s.a, st) IN IF a.st.sig # "next" THEN a.st ELSE Eff(a.st, IF a.v > 1 THEN s.n ELSE s.n + 1, a.v).st
      [] s.k = "blk" -> Scoped(s.body, st)
      [] s.k = "if" ->   \* init: 0 or 1 declarations, els: further statements
            LET p == Push(st)
                q == Run(s.init, p)
                c == Cond(s.c, q)
            IN Pop(IF c.st.sig # "next" THEN c.st ELSE IF c.v THEN Scoped(s.body, c.st) ELSE Scoped(s.els, c.st))
      [] s.k = "for" -> AfterBreak(For(s, 0, st), s.lab)
      [] s.k = "inf" -> Scoped(s.body, st)                \* for { ... return }
      [] s.k = "range" -> LET a == EvalAll(<<s.a, s.b>>, <<>>, st) IN IF a.st.sig # "next" THEN a.st ELSE AfterBreak(Range(s, a.v, a.st), s.lab)
      [] s.k = "times" -> AfterBreak(Times(s, 0, st), s.lab)      \* a loop that declares nothing
      [] s.k = "sw" /\ s.x # "" -> LET a == Eval(s.a, st) IN IF a.st.sig # "next" THEN a.st      \* switch x := a; x
                                   ELSE Pop(Exec([s EXCEPT !.x = "", !.a = [k |-> "var", x |-> s.x]], [Push(a.st) EXCEPT !.env = Declare(@, s.x, a.v)]))
      [] s.k = "sw" -> LET a == Eval(s.a, st)
                           hits == {i \in 1..Len(s.cases) : s.cases[i].n = a.v}
                           dflt == {i \in 1..Len(s.cases) : s.cases[i].n = -1}
                       IN IF a.st.sig # "next" THEN a.st
                          ELSE IF hits # {} THEN AfterBreak(Clauses(s.cases, CHOOSE i \in hits : \A j \in hits : i <= j, a.st), s.lab)
                          ELSE IF dflt # {} THEN AfterBreak(Clauses(s.cases, CHOOSE i \in dflt : TRUE, a.st), s.lab) ELSE a.st
      [] s.k = "tsw" -> LET a == Eval(s.a, st) IN IF a.st.sig # "next" THEN a.st
                        ELSE IF a.v % 2 = 0 THEN AfterBreak(With("tv", a.v, s.body, a.st), "") ELSE AfterBreak(With("tv", Hidden, s.els, a.st), "")
      [] s.k = "sel" -> IF s.ready THEN LET a == Eval(s.a, st) IN IF a.st.sig # "next" THEN a.st ELSE AfterBreak(With("sv", a.v, s.body, a.st), "")
                        ELSE AfterBreak(Scoped(s.els, st), "")
      [] s.k = "brk" -> [st EXCEPT !.sig = "brk", !.lab = s.lab]
      [] s.k = "cont" -> [st EXCEPT !.sig = "cont", !.lab = s.lab]
      [] s.k = "defer" -> LET a == Eval(s.a, st) IN IF a.st.sig # "next" THEN a.st ELSE [a.st EXCEPT !.defers = Append(@, [k |-> s.d, n |-> s.n, v |-> a.v])]
      [] s.k = "panic" -> LET a == Eval(s.a, st) IN IF a.st.sig # "next" THEN a.st ELSE Panic(a.st, ToString(a.v))
      [] s.k = "ret" -> LET a == EvalAll(s.es, <<>>, st) IN Leave(a.st, s.ex, a.v)
      [] s.k = "two" -> LET a == EvalAll(s.es, <<>>, st) IN IF a.st.sig # "next" THEN a.st ELSE Leave(Eff(a.st, s.n, 0).st, s.ex, a.v)
      [] s.k = "naked" -> Leave(st, s.ex, NamedVals(st.f, st.env))
      [] s.k = "self" -> IF Look(st.env, "fuel") = 0 THEN st
                         ELSE LET r == Call(st.f, Look(st.env, "fuel") - 1, Look(st.env, "p"), Look(st.env, "q"), st.log)
                                  a == [st EXCEPT !.log = r.log]
                              IN IF r.out = "panic" THEN Panic(a, r.pv) ELSE IF r.out = "zero" THEN [Leave(a, s.ex, r.vals) EXCEPT !.zero = TRUE] ELSE Leave(a, s.ex, r.vals)
\* ---------------- a call ----------------
RECURSIVE Deferred(_)
Deferred(st) == IF st.defers = <<>> THEN st ELSE
    LET d == Last(st.defers)
        a == [st EXCEPT !.defers = Front(@)]
    IN Deferred(CASE d.k = "arg" -> Eff(a, d.n, d.v).st
                  [] d.k = "late" -> Eff(a, d.n, a.env[1]["p"]).st
                  [] d.k = "mod" -> [a EXCEPT !.env = [@ EXCEPT ![1] = [@ EXCEPT !["r0"] = @ + d.n]]]
                  [] d.k = "rec" -> IF a.sig # "panic" THEN a
                                    ELSE LET b == Eff(a, d.n, 0).st IN [b EXCEPT !.sig = "ret", !.zero = TRUE,
                                           !.env = IF a.f.named /\ ~a.f.blank THEN [@ EXCEPT ![1] = [@ EXCEPT !["r0"] = d.n]] ELSE @])
Zeros(f) == [i \in 1..Len(f.res) |-> 0]
Call(f, fuel, p, q, log) ==
    LET params == ("fuel" :> fuel) @@ ("p" :> p) @@ ("q" :> q)
        results == IF f.named THEN [x \in {ResName(f, i) : i \in 1..Len(f.res)} |-> 0] ELSE [x \in {} |-> 0]
        st0 == [env |-> <<params @@ results>>, log |-> Append(log, [k |-> "in"]), sig |-> "next", lab |-> "", vals |-> Zeros(f), pv |-> "",
                defers |-> <<>>, f |-> f, zero |-> FALSE]
        run == Run(f.body, st0)
        end == IF run.sig = "next" THEN Leave(run, 0, Zeros(f)) ELSE run    \* falling off the end (only without results)
        fin == Deferred([end EXCEPT !.vals = IF end.sig = "panic" THEN Zeros(f) ELSE @])
    IN IF fin.sig = "panic" THEN [log |-> Append(fin.log, [k |-> "p", m |-> fin.pv]), out |-> "panic", pv |-> fin.pv, vals |-> <<>>]
       ELSE [log |-> fin.log, out |-> IF fin.zero /\ ~f.named THEN "zero" ELSE "ret", pv |-> "", vals |-> IF f.named THEN NamedVals(f, fin.env) ELSE fin.vals]
==============================================================================
