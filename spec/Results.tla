------------------------------- MODULE Results -------------------------------
(* Recorded test results.  A result grows by the events the monitor records.    *)
EXTENDS Fields
CONSTANTS Callers, Stacks, Msgs, MaxTime
EmptyFun == [x \in {} |-> x]
NewResult == [callers |-> EmptyFun, ext |-> EmptyFun, pp |-> EmptyFun, mp |-> EmptyFun, hit |-> 0, fail |-> FALSE]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
Put(f, k, x) == (k :> Append(At(f, k), x)) @@ f
Frame(tree, stack, t) == [f |-> tree, s |-> stack, t |-> t]
AddCall(r, c, fr) == [r EXCEPT !.callers = Put(r.callers, c, fr)]
AddExt(r, c, fr)  == [r EXCEPT !.ext = Put(r.ext, c, fr)]
AddPP(r, c, m)    == [r EXCEPT !.pp = Put(r.pp, c, m)]
AddMP(r, c, m)    == [r EXCEPT !.mp = Put(r.mp, c, m)]
Hit(r)            == [r EXCEPT !.hit = r.hit + 1]
Fail(r)           == [r EXCEPT !.fail = TRUE]
==============================================================================
