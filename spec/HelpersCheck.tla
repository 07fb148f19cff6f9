----------------------------- MODULE HelpersCheck ----------------------------
(* A recorded execution is accepted iff every event is an action of Helpers.     *)
EXTENDS Helpers, Json, IOUtils
VARIABLES t, l
vars == <<running, waiting, joining, joined, holder, next, t, l>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
T == Traces[t].ev
Ev == T[l]
TInit == HInit /\ t \in 1..Len(Traces) /\ l = 1
TNext == /\ l <= Len(T) /\ l' = l + 1 /\ t' = t
         /\ CASE Ev.e = "ask" -> Ask(Ev.a) [] Ev.e = "take" -> Take(Ev.a, Traces[t].limit) [] Ev.e = "rel" -> Rel(Ev.a)
              [] Ev.e = "join" -> Join [] Ev.e = "joined" -> Joined
              [] Ev.e = "lock" -> Lock(Ev.a, Ev.k) [] Ev.e = "unlock" -> Unlock(Ev.a, Ev.k)
              [] Ev.e = "app" -> App(Ev.a, Ev.n) [] Ev.e = "all" -> Complete(Ev.a, Ev.n)
              [] Ev.e = "roll" -> RollOK(Ev.limit, Ev.total, Ev.kept, Ev.marked) /\ UNCHANGED hvars
              [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_vars
ASSUME TLCSet(1, {})
ASSUME \A i \in 1..Len(Traces) : TLCSet(10 + i, 0)
Track == /\ (l > TLCGet(10 + t) => TLCSet(10 + t, l))
         /\ (l > Len(T) => TLCSet(1, TLCGet(1) \cup {t}))
Accepted == LET bad == (1..Len(Traces)) \ TLCGet(1) IN
            /\ PrintT(<<"REJECTED", [i \in bad |-> TLCGet(10 + i)]>>)
            /\ TRUE
==============================================================================
