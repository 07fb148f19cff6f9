------------------------------- MODULE Helpers -------------------------------
(* The small shared machinery the analysis is built on: an activity limiter,     *)
(* per-key locks, an append-only shared buffer (actions, for recorded executions *)
(* and for exhaustive exploration), and writers, bounded buffers and command     *)
(* environments (functions, for generated cases).                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES running, waiting, joining, joined, holder, next
hvars == <<running, waiting, joining, joined, holder, next>>
Empty == [x \in {} |-> x]
HInit == running = {} /\ waiting = {} /\ joining = FALSE /\ joined = FALSE /\ holder = Empty /\ next = Empty
\* ---- limiter: Ask = Take called, Take = Take returned, Rel = Release called, Join/Joined = Join called/returned
Ask(a) == ~joining /\ a \notin waiting \cup running /\ waiting' = waiting \cup {a} /\ UNCHANGED <<running, joining, joined, holder, next>>
Take(a, limit) == /\ a \in waiting /\ Cardinality(running) < limit /\ ~joined
                  /\ waiting' = waiting \ {a} /\ running' = running \cup {a} /\ UNCHANGED <<joining, joined, holder, next>>
Rel(a) == a \in running /\ running' = running \ {a} /\ UNCHANGED <<waiting, joining, joined, holder, next>>
Join == waiting = {} /\ ~joining /\ joining' = TRUE /\ UNCHANGED <<running, waiting, joined, holder, next>>
Joined == joining /\ ~joined /\ running = {} /\ waiting = {} /\ joined' = TRUE /\ UNCHANGED <<running, waiting, joining, holder, next>>
\* ---- locks by key
Lock(a, k) == k \notin DOMAIN holder /\ holder' = (k :> a) @@ holder /\ UNCHANGED <<running, waiting, joining, joined, next>>
Unlock(a, k) == k \in DOMAIN holder /\ holder[k] = a /\ holder' = [x \in DOMAIN holder \ {k} |-> holder[x]] /\ UNCHANGED <<running, waiting, joining, joined, next>>
\* ---- shared buffer: chunk i of writer w follows chunk i-1 of w, nothing is lost
App(w, i) == i = (IF w \in DOMAIN next THEN next[w] ELSE 1) /\ next' = (w :> i + 1) @@ next /\ UNCHANGED <<running, waiting, joining, joined, holder>>
Complete(w, c) == (IF w \in DOMAIN next THEN next[w] ELSE 1) = c + 1 /\ UNCHANGED hvars

\* ---- tee: targets are [kind, closer], kind in ok, fail, short, nil.  Every target sees every write in order;
\* a write fails iff a target failed or took a different number of bytes than the others
Targets(ts) == {i \in 1..Len(ts) : ts[i].kind # "nil"}
TeeErr(ts, len) == \E i \in Targets(ts) : ts[i].kind = "fail" \/ (ts[i].kind = "short" /\ len > 2 /\ Cardinality(Targets(ts)) > 1)
\* ---- rolling buffer: what is kept of everything written (marker followed by the most recent bytes)
RollOK(limit, total, kept, marked) ==
    IF total <= limit THEN kept = total /\ ~marked
    ELSE /\ kept + (IF marked THEN 3 ELSE 0) <= limit
         /\ kept >= limit \div 2 /\ kept <= total
         /\ (kept < total) = marked
\* ---- environment of a command: own entries win, loader variables never pass
EnvOf(os, own) == {e \in os : e.k \notin {o.k : o \in own} /\ ~e.ld} \cup own
==============================================================================
