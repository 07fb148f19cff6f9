------------------------------- MODULE Compare -------------------------------
(* How recorded results are judged: stability of two baseline runs, and the      *)
(* verdict of comparing a (stable) baseline with the run after the update.       *)
EXTENDS Results
HasPrefix(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsProject(fr) == HasPrefix(fr.file, "./") /\ ~HasPrefix(fr.file, "./vendor/")
\* call path: file and function of each frame, line numbers do not count
Path(stack) == [i \in 1..Len(stack) |-> <<stack[i].file, stack[i].fn>>]
ProjPath(stack) == Path(SelectSeq(stack, IsProject))
\* position of frame i among the frames of the same path
Occ(frames, i, K(_)) == Cardinality({j \in 1..(i-1) : K(frames[j].s) = K(frames[i].s)})
\* the frame of `others` that corresponds to frames[i], 0 when there is none
Peer(frames, i, others, K(_)) ==
  LET c == {j \in 1..Len(others) : K(others[j].s) = K(frames[i].s) /\ Occ(others, j, K) = Occ(frames, i, K)}
  IN IF c = {} THEN 0 ELSE CHOOSE j \in c : TRUE

(* ---- stability ---- *)
\* frames in order of their time, equal times in recorded order
ByTime(frames) ==
  LET rank(i) == Cardinality({j \in 1..Len(frames) : frames[j].t < frames[i].t \/ (frames[j].t = frames[i].t /\ j < i)}) + 1
  IN [r \in 1..Len(frames) |-> frames[CHOOSE i \in 1..Len(frames) : rank(i) = r]]
StableFrames(f1, f2, K(_)) ==
  LET a == ByTime(f1) b == ByTime(f2)
      keep == SelectSeq([i \in 1..Len(a) |-> <<i, Peer(a, i, b, K)>>], LAMBDA p : p[2] # 0)
  IN [n \in 1..Len(keep) |-> [f |-> Stable(a[keep[n][1]].f, b[keep[n][2]].f), s |-> a[keep[n][1]].s, t |-> a[keep[n][1]].t]]
Count(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
\* messages of l1 that l2 raised as often, in l1's order
Common(l1, l2) == LET idx == SelectSeq([i \in 1..Len(l1) |-> i], LAMBDA i : Count(SubSeq(l1, 1, i), l1[i]) <= Count(l2, l1[i]))
                  IN [n \in 1..Len(idx) |-> l1[idx[n]]]
CommonPanics(p1, p2) == LET c == [k \in DOMAIN p1 \cap DOMAIN p2 |-> Common(p1[k], p2[k])]
                        IN [k \in {x \in DOMAIN c : c[x] # <<>>} |-> c[k]]
StableResult(r1, r2) ==
  [callers |-> [c \in DOMAIN r1.callers \cap DOMAIN r2.callers |-> StableFrames(r1.callers[c], r2.callers[c], ProjPath)],
   ext |-> [c \in DOMAIN r1.ext \cap DOMAIN r2.ext |-> StableFrames(r1.ext[c], r2.ext[c], Path)],
   pp |-> CommonPanics(r1.pp, r2.pp), mp |-> CommonPanics(r1.mp, r2.mp),
   hit |-> r1.hit, fail |-> r1.fail \/ r2.fail]

(* ---- verdict ---- *)
FF(m) == FlatFun(Flat(m))
SameSet(a, b) == {p \in DOMAIN FF(a) \cap DOMAIN FF(b) : FF(a)[p] = FF(b)[p]}
DiffSet(a, b) == {p \in DOMAIN FF(a) \cap DOMAIN FF(b) : FF(a)[p] # FF(b)[p]}
RECURSIVE SumTo(_, _)
SumTo(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumTo(F, n - 1)
RECURSIVE SumSet(_, _)
SumSet(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN F(x) + SumSet(F, S \ {x})
CallerVerdict(pre, post) ==
  LET peer == [i \in 1..Len(pre) |-> Peer(pre, i, post, ProjPath)]
      same(i) == IF peer[i] = 0 THEN 0 ELSE Cardinality(SameSet(pre[i].f, post[peer[i]].f))
      diff(i) == Cardinality(DOMAIN FF(pre[i].f)) - same(i)
  IN [same |-> SumTo(same, Len(pre)), diff |-> SumTo(diff, Len(pre)),
      changed |-> UNION {IF peer[i] = 0 THEN {} ELSE DiffSet(pre[i].f, post[peer[i]].f) : i \in 1..Len(pre)}]
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Max1(n) == IF n < 1 THEN 1 ELSE n
\* timing: intervals between consecutive matched calls; flagged when one exceeds the other times mult
TimeFlags(pre, post, mult) ==
  LET m == SelectSeq([i \in 1..Len(pre) |-> <<i, Peer(pre, i, post, ProjPath)>>], LAMBDA p : p[2] # 0)
      pt(n) == IF n = 0 THEN 0 ELSE pre[m[n][1]].t
      qt(n) == IF n = 0 THEN 0 ELSE post[m[n][2]].t
      ok(n) == pt(n) > 0 /\ qt(n) > 0 /\ pt(n) >= pt(n - 1) /\ qt(n) >= qt(n - 1)
      pi(n) == pt(n) - pt(n - 1)
      qi(n) == qt(n) - qt(n - 1)
  IN {<<pi(n), qi(n)>> : n \in {k \in 1..Len(m) : ok(k) /\ (Max1(pi(k)) * mult < qi(k) \/ pi(k) > Max1(qi(k)) * mult)}}
\* the one that may be reported: the largest, where all point the same way
Reportable(F) == LET d(x) == x[2] - x[1] IN
                 IF (\A x \in F : d(x) > 0) \/ (\A x \in F : d(x) < 0)
                 THEN {x \in F : \A y \in F : Abs(d(y)) <= Abs(d(x))} ELSE F
PanicDiff(p, q) == LET ids == DOMAIN p \cup DOMAIN q
                       one(id) == LET a == At(p, id) b == At(q, id)
                                      ms == {a[i] : i \in 1..Len(a)} \cup {b[i] : i \in 1..Len(b)}
                                      f(m) == Abs(Count(a, m) - Count(b, m))
                                  IN SumSet(f, ms)
                   IN SumSet(one, ids)
TestVerdict(pre, post, mult) ==
  LET cv == [c \in DOMAIN pre.callers |-> CallerVerdict(pre.callers[c], At(post.callers, c))]
      s(c) == cv[c].same
      d(c) == cv[c].diff
      tf == [c \in DOMAIN pre.callers |-> TimeFlags(pre.callers[c], At(post.callers, c), mult)]
  IN [same |-> SumSet(s, DOMAIN cv),
      diff |-> SumSet(d, DOMAIN cv) + PanicDiff(pre.pp, post.pp) + PanicDiff(pre.mp, post.mp),
      changed |-> [c \in {x \in DOMAIN cv : cv[x].changed # {}} |-> cv[c].changed],
      times |-> [c \in {x \in DOMAIN tf : tf[x] # {}} |-> Reportable(tf[c])],
      reg |-> IF ~pre.fail /\ post.fail THEN 1 ELSE 0]

(* ---- laws of the verdict, checked on every generated pair ---- *)
NoFalseAlarm(r, mult) == LET v == TestVerdict(r, r, mult) IN v.diff = 0 /\ v.changed = EmptyFun /\ v.reg = 0 /\ v.times = EmptyFun
StableSelf(r) == LET s == StableResult(r, r) IN
                 \A c \in DOMAIN r.callers : Len(s.callers[c]) = Len(r.callers[c])
\* whatever varied between the baseline runs cannot show up as a change
OnlyStable(r1, r2, post) ==
  LET v == TestVerdict(StableResult(r1, r2), post, 3)
  IN \A c \in DOMAIN v.changed : \A p \in v.changed[c] :
       \E i \in 1..Len(r1.callers[c]), j \in 1..Len(r2.callers[c]) :
          /\ ProjPath(r1.callers[c][i].s) = ProjPath(r2.callers[c][j].s)
          /\ p \in SameSet(r1.callers[c][i].f, r2.callers[c][j].f)
==============================================================================
