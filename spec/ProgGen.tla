------------------------------- MODULE ProgGen -------------------------------
(* Random functions of Prog, decoded from a tape of random numbers so that every *)
(* choice is drawn once, with the behaviour the specification gives them.        *)
EXTENDS Prog, Json, IOUtils, CSV
VARIABLES tape, n
vars == <<tape, n>>
R(S) == RandomElement(IF n = n THEN S ELSE {})
P(t, i, k) == t[((i - 1) % Len(t)) + 1] % k
Pool == <<"x", "y", "z", "myInt", "r", "x", "r0", "err", "error", "y">>
Res(x, i, c) == [x |-> x, i |-> i, c |-> c]
\* ---- expressions ----
RECURSIVE GE(_, _, _, _)
GE(t, i, c, d) ==
    LET k == P(t, i, 12) IN
    IF d = 0 \/ k < 3 THEN Res([k |-> "lit", n |-> P(t, i + 1, 4)], i + 2, c)
    ELSE IF k < 7 THEN Res([k |-> "var", x |-> c.vars[P(t, i + 1, Len(c.vars)) + 1]], i + 2, c)
    ELSE IF k = 7 THEN LET a == GE(t, i + 1, c, d - 1) b == GE(t, a.i, c, d - 1) IN Res([k |-> "add", a |-> a.x, b |-> b.x], b.i, c)
    ELSE IF k = 8 THEN LET a == GE(t, i + 1, c, d - 1) IN Res([k |-> "clo", n |-> i, a |-> a.x], a.i, c)
    ELSE IF k = 9 /\ P(t, i + 1, 3) = 0 THEN LET a == GE(t, i + 2, c, d - 1) b == GE(t, a.i, c, d - 1) IN Res([k |-> "div", a |-> a.x, b |-> b.x], b.i, c)
    ELSE LET a == GE(t, i + 1, c, d - 1) IN Res([k |-> "eff", n |-> i, a |-> a.x], a.i, c)
GC(t, i, c) == LET a == GE(t, i + 2, c, 2) IN Res([a |-> a.x, op |-> IF P(t, i, 2) = 0 THEN ">" ELSE "==", n |-> P(t, i + 1, 3)], a.i, c)
\* ---- statements ----
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Bind(c, x) == [c EXCEPT !.vars = Append(Without(@, x), x), !.sett = Append(Without(@, x), x), !.here = @ \cup {x}, !.shad = @ \/ (x \in {"r0", "r1"})]
BindRO(c, x) == [Bind(c, x) EXCEPT !.sett = Without(@, x)]
Sub(c) == [c EXCEPT !.here = {}]
InLoop(c, l) == [Sub(c) EXCEPT !.brk = TRUE, !.cont = TRUE, !.labs = Append(@, [l |-> l, loop |-> TRUE])]
InSwitch(c, l) == [Sub(c) EXCEPT !.brk = TRUE, !.labs = Append(@, [l |-> l, loop |-> FALSE])]
RECURSIVE GEs(_, _, _, _, _)
GEs(t, i, c, k, acc) == IF k = 0 THEN Res(acc, i, c) ELSE LET a == GE(t, i, c, 2) IN GEs(t, a.i, c, k - 1, Append(acc, a.x))
GRet(t, i, c) ==
    LET k == P(t, i, 8) m == Len(c.f.res) IN
    IF k < 3 /\ c.f.named /\ ~c.shad THEN Res([k |-> "naked", ex |-> i], i + 1, c)
    ELSE IF k = 3 /\ m = 2 THEN LET a == GEs(t, i + 1, c, 2, <<>>) IN Res([k |-> "two", n |-> i, ex |-> i, es |-> a.x], a.i, c)
    ELSE LET a == GEs(t, i + 1, c, m, <<>>) IN Res([k |-> "ret", ex |-> i, es |-> a.x], a.i, c)
RECURSIVE GS(_, _, _, _), GSeq(_, _, _, _, _, _), GCases(_, _, _, _, _, _, _)
Ends(s) == s.k \in {"ret", "two", "naked", "brk", "cont", "panic"}
GSeq(t, i, c, d, k, acc) == IF k = 0 \/ (acc # <<>> /\ Ends(Last(acc))) THEN Res(acc, i, c) ELSE LET s == GS(t, i, c, d) IN GSeq(t, s.i, s.c, d, k - 1, Append(acc, s.x))
\* a block: one to three statements, sometimes none
GB(t, i, c, d) == LET b == GSeq(t, i + 1, c, d, P(t, i, 7) \div 2, <<>>) IN Res(b.x, b.i, c)
GCases(t, i, c, d, k, used, acc) ==
    IF k = 0 THEN Res(acc, i, c)
    ELSE LET v == P(t, i, 5) - 1
             b == GB(t, i + 2, c, d)
         IN IF v \in used THEN GCases(t, i + 1, c, d, k - 1, used, acc)
            ELSE GCases(t, b.i, c, d, k - 1, used \cup {v}, Append(acc, [n |-> v, body |-> b.x, fall |-> P(t, i + 1, 4) = 0]))
NoLastFall(cs) == [i \in 1..Len(cs) |-> IF i = Len(cs) THEN [cs[i] EXCEPT !.fall = FALSE] ELSE cs[i]]
Lab(t, i) == IF P(t, i, 3) = 0 THEN "L" \o ToString(i) ELSE ""
GS(t, i, c, d) ==
    LET k == IF d = 0 THEN P(t, i, 11) ELSE P(t, i, 26) IN
    CASE k < 3 -> LET a == GE(t, i + 1, c, 2) IN Res([k |-> "tr", n |-> i, a |-> a.x], a.i, c)
      [] k < 5 -> LET x == Pool[P(t, i + 1, Len(Pool)) + 1] a == GE(t, i + 2, c, 2) IN
                  IF x \notin c.here THEN Res([k |-> "decl", x |-> x, a |-> a.x], a.i, Bind(c, x))
                  ELSE IF \E j \in 1..Len(c.sett) : c.sett[j] = x THEN Res([k |-> "set", x |-> x, a |-> a.x], a.i, c) ELSE Res([k |-> "tr", n |-> i, a |-> a.x], a.i, c)
      [] k = 5 -> LET x == c.sett[P(t, i + 1, Len(c.sett)) + 1] a == GE(t, i + 2, c, 2) IN Res([k |-> "set", x |-> x, a |-> a.x], a.i, c)
      [] k \in {6, 7} -> GRet(t, i + 1, c)
      [] k = 8 -> IF P(t, i + 1, 4) = 0 THEN LET a == GE(t, i + 2, c, 1) IN Res([k |-> "panic", a |-> a.x], a.i, c)
                  ELSE IF P(t, i + 1, 4) = 1 /\ Len(c.f.res) > 0 /\ {"fuel", "p", "q"} \cap c.taken = {} THEN Res([k |-> "self", ex |-> i], i + 2, c)
                  ELSE Res([k |-> "noise", n |-> P(t, i + 2, 5)], i + 3, c)
      [] k = 9 -> LET b == P(t, i + 1, 3) IN
                  IF b = 0 /\ c.brk THEN Res([k |-> "brk", lab |-> ""], i + 2, c)
                  ELSE IF b = 1 /\ c.cont THEN Res([k |-> "cont", lab |-> ""], i + 2, c)
                  ELSE IF Len(c.labs) > 0 THEN LET l == c.labs[P(t, i + 2, Len(c.labs)) + 1] IN
                       IF l.l = "" THEN Res([k |-> "noise", n |-> 0], i + 3, c)
                       ELSE Res([k |-> IF l.loop /\ P(t, i + 3, 2) = 0 THEN "cont" ELSE "brk", lab |-> l.l], i + 4, c)
                  ELSE Res([k |-> "noise", n |-> 1], i + 2, c)
      [] k = 10 -> LET a == GE(t, i + 2, c, 1)
                       d0 == <<"arg", "arg", "late", "rec", "mod">>[P(t, i + 1, 5) + 1]
                       dk == IF d0 = "mod" /\ (~c.f.named \/ c.f.blank \/ c.shad) THEN "arg" ELSE IF d0 = "rec" /\ c.shad THEN "arg" ELSE d0
                   IN Res([k |-> "defer", d |-> dk, n |-> i, a |-> IF dk = "arg" THEN a.x ELSE [k |-> "lit", n |-> 0]], a.i, c)
      [] k < 16 -> LET hasInit == P(t, i + 1, 4) = 0
                       e == GE(t, i + 2, c, 1)
                       x == IF P(t, i + 3, 2) = 0 THEN "x" ELSE "iv"
                       ci == IF hasInit THEN Bind(Sub(c), x) ELSE c
                       cd == GC(t, e.i, ci)
                       b == GB(t, cd.i, Sub(ci), d - 1)
                       ek == P(t, b.i, 4)
                       els == IF ek = 0 THEN Res(<<>>, b.i + 1, c) ELSE IF ek = 1 THEN GB(t, b.i + 1, Sub(ci), d - 1)
                              ELSE LET s == GS(t, b.i + 1, Sub(ci), d - 1) IN Res(<<s.x>>, s.i, c)
                   IN Res([k |-> "if", init |-> IF hasInit THEN <<[k |-> "decl", x |-> x, a |-> e.x]>> ELSE <<>>, c |-> cd.x, body |-> b.x, els |-> els.x], els.i, c)
      [] k < 18 -> LET l == Lab(t, i + 1) x == IF P(t, i + 2, 2) = 0 THEN "x" ELSE "i" b == GB(t, i + 4, BindRO(InLoop(c, l), x), d - 1)
                   IN Res([k |-> "for", lab |-> l, x |-> x, n |-> P(t, i + 3, 3), body |-> b.x], b.i, c)
      [] k = 18 -> LET l == Lab(t, i + 1) a == GE(t, i + 2, c, 1) a2 == GE(t, a.i, c, 1) b == GB(t, a2.i, Bind(InLoop(c, l), "v"), d - 1)
                   IN Res([k |-> "range", lab |-> l, x |-> "v", a |-> a.x, b |-> a2.x, body |-> b.x], b.i, c)
      [] k < 21 -> LET l == Lab(t, i + 1) a == GE(t, i + 2, c, 1)
                       x == <<"", "", "x", "sx">>[P(t, i + 3, 4) + 1]
                       cs == GCases(t, a.i, IF x = "" THEN InSwitch(c, l) ELSE Sub(Bind(InSwitch(c, l), x)), d - 1, 3, {}, <<>>)
                   IN Res([k |-> "sw", lab |-> l, x |-> x, a |-> a.x, cases |-> NoLastFall(cs.x)], cs.i, c)
      [] k = 21 -> LET a == GE(t, i + 1, c, 1) b == GB(t, a.i, Bind(InSwitch(c, ""), "tv"), d - 1)
                       cs == [InSwitch(c, "") EXCEPT !.vars = Without(@, "tv"), !.sett = Without(@, "tv")]
                       e == GB(t, b.i, cs, d - 1)
                   IN Res([k |-> "tsw", a |-> a.x, body |-> b.x, els |-> e.x], e.i, c)
      [] k = 22 -> LET a == GE(t, i + 2, c, 1) b == GB(t, a.i, Bind(InSwitch(c, ""), "sv"), d - 1) e == GB(t, b.i, InSwitch(c, ""), d - 1)
                   IN Res([k |-> "sel", ready |-> P(t, i + 1, 2) = 0, a |-> a.x, body |-> b.x, els |-> e.x], e.i, c)
      [] k = 23 -> LET b == GB(t, i + 1, Sub(c), d - 1) IN Res([k |-> "blk", body |-> b.x], b.i, c)
      [] k = 24 -> LET a == GE(t, i + 1, c, 1) IN Res([k |-> "cls", n |-> i, a |-> a.x], a.i, c)
      [] OTHER -> LET l == Lab(t, i + 1) b == GB(t, i + 3, InLoop(c, l), d - 1) IN Res([k |-> "times", lab |-> l, n |-> P(t, i + 2, 3), body |-> b.x], b.i, c)
\* ---- the end of a function with results: every way Go accepts ----
NoBreaks(c) == [Sub(c) EXCEPT !.brk = FALSE, !.cont = FALSE, !.labs = <<>>]
GBR(t, i, c, d) == LET b == GSeq(t, i + 1, c, d, P(t, i, 3), <<>>) r == GRet(t, b.i, b.c)
                   IN IF b.x # <<>> /\ Ends(Last(b.x)) THEN b ELSE Res(Append(b.x, r.x), r.i, c)
RECURSIVE GFinal(_, _, _, _)
GFinal(t, i, c, d) ==
    LET k == P(t, i, 9) IN
    IF d = 0 \/ k < 4 THEN GRet(t, i + 1, c)
    ELSE CASE k = 4 -> LET cd == GC(t, i + 1, c) b == GBR(t, cd.i, NoBreaks(c), 1) e == GFinal(t, b.i, NoBreaks(c), d - 1)
                       IN Res([k |-> "if", init |-> <<>>, c |-> cd.x, body |-> b.x, els |-> <<e.x>>], e.i, c)
           [] k = 5 -> LET b == GBR(t, i + 1, NoBreaks(c), 1) IN Res([k |-> "inf", body |-> b.x], b.i, c)
           [] k = 6 -> LET a == GE(t, i + 1, c, 1) b1 == GBR(t, a.i, NoBreaks(c), 1) b2 == GBR(t, b1.i, NoBreaks(c), 1)
                       IN Res([k |-> "sw", lab |-> "", x |-> "", a |-> a.x, cases |-> <<[n |-> 1, body |-> b1.x, fall |-> FALSE], [n |-> -1, body |-> b2.x, fall |-> FALSE]>>], b2.i, c)
           [] k = 7 -> LET a == GE(t, i + 2, c, 1) b == GBR(t, a.i, Bind(NoBreaks(c), "sv"), 1) e == GBR(t, b.i, NoBreaks(c), 1)
                       IN Res([k |-> "sel", ready |-> P(t, i + 1, 2) = 0, a |-> a.x, body |-> b.x, els |-> e.x], e.i, c)
           [] OTHER -> LET a == GE(t, i + 1, c, 1) IN Res([k |-> "panic", a |-> a.x], a.i, c)
Kinds == <<"int", "any", "my", "str", "err", "flt", "ptr", "sl", "st", "pst">>
GProg(t) ==
    LET m == <<0, 1, 1, 2, 1, 2>>[P(t, 1, 6) + 1]
        named == m > 0 /\ P(t, 2, 3) = 0
        res == [j \in 1..m |-> IF named THEN "int" ELSE Kinds[P(t, 2 + j, 10) + 1]]
        blank == named /\ P(t, 5, 4) = 0
        f0 == [res |-> res, named |-> named, blank |-> blank]
        base == <<"p", "q", "fuel">> \o (IF named /\ ~blank THEN <<"r0">> ELSE <<>>) \o (IF named /\ m = 2 THEN <<"r1">> ELSE <<>>)
        c0 == [vars |-> base, sett |-> Without(base, "fuel"), here |-> {base[j] : j \in 1..Len(base)}, brk |-> FALSE, cont |-> FALSE, labs |-> <<>>, shad |-> FALSE,
               taken |-> {}, f |-> f0]
        b == GSeq(t, 8, c0, 3, 2 + P(t, 7, 4), <<>>)
        fin == GFinal(t, b.i, b.c, 2)
        \* often the first statement is a deferred recovery, and sometimes the last a panic
        lead == IF P(t, 297, 4) = 0 THEN <<[k |-> "defer", d |-> "rec", n |-> 500, a |-> [k |-> "lit", n |-> 0]]>> ELSE <<>>
        body == IF m = 0 \/ (b.x # <<>> /\ Ends(Last(b.x)) /\ Last(b.x).k # "panic") THEN b.x ELSE IF b.x # <<>> /\ Last(b.x).k = "panic" THEN b.x ELSE Append(b.x, fin.x)
    IN f0 @@ [body |-> lead \o body, recv |-> <<"func", "ptr", "val", "gen", "genfunc">>[P(t, 6, 5) + 1]]
Inputs == {<<0, 1>>, <<2, 0>>, <<1, 2>>, <<3, 3>>}
Init == tape = <<>> /\ n = 0
Start == n = 0 /\ n' = 1 /\ \E t \in {[i \in 1..300 |-> R(0..27719)]} : tape' = t
Finish == n = 1 /\ n' = 2 /\ UNCHANGED tape
Next == Start \/ Finish
Spec == Init /\ [][Next]_vars
\* ---- sanity of the specification: a call reports its entry first, leaves exactly once per call, and a state is reported for every normal return ----
Runs(f) == [x \in Inputs |-> Call(f, 1, x[1], x[2], <<>>)]
Count(s, P1(_)) == Cardinality({i \in 1..Len(s) : P1(s[i])})
LeavesOnce == n = 2 => LET f == GProg(tape) rs == Runs(f) IN \A x \in Inputs :
    /\ rs[x].log[1].k = "in"
    /\ Count(rs[x].log, LAMBDA e : e.k = "in") >= Count(rs[x].log, LAMBDA e : e.k = "s")
    /\ rs[x].out = "ret" /\ ~f.named => Count(rs[x].log, LAMBDA e : e.k = "s") >= 1
Emit == n = 2 => LET f == GProg(tape) rs == Runs(f) IN
    CSVWrite("%1$s", <<ToJson([f |-> f, runs |-> {[p |-> x[1], q |-> x[2], log |-> rs[x].log, out |-> rs[x].out, pv |-> rs[x].pv, vals |-> rs[x].vals] : x \in Inputs}])>>, IOEnv.OUT)
==============================================================================
