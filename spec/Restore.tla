------------------------------- MODULE Restore -------------------------------
(* A source modifier working on a tree of packages: instrumentations are pending *)
(* until they are committed, clients are added to packages, and a restore brings  *)
(* everything back. Packages can be away for a while (every access below them     *)
(* fails) and operations can run while nothing can be written (a full disk).      *)
(* The state of a file says what may be seen on disk:                             *)
(*   orig  exactly the original bytes, mode and kind                              *)
(*   mod   modified                                                               *)
(*   may   either, or damaged (after an operation that met a fault)               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Files, Pkgs, PkgOf(_), Phys(_), Funcs(_)     \* Phys: two paths can be the same file
VARIABLES disk, pend, clients, away, last
vars == <<disk, pend, clients, away, last>>
P == {Phys(f) : f \in Files}
Init == disk = [x \in P |-> "orig"] /\ pend = [f \in Files |-> "no"] /\ clients = [p \in Pkgs |-> "no"] /\ away = {} /\ last = [op |-> "start"]
Reach(f) == PkgOf(f) \notin away
\* what happens on an instrumentation of function g of f with the kind of point k
Inject(f, g, k) ==
    LET sound == Reach(f) /\ disk[Phys(f)] # "may" /\ pend[f] # "may" IN
    /\ last' = [op |-> k, f |-> f, g |-> g, full |-> FALSE, exp |-> IF g \notin Funcs(f) THEN "err" ELSE IF sound THEN "ok" ELSE "any"]
    /\ pend' = [pend EXCEPT ![f] = IF @ = "yes" THEN "yes" ELSE IF ~sound THEN "may" ELSE IF g \in Funcs(f) THEN "yes" ELSE "idle"]
    /\ UNCHANGED <<disk, clients, away>>
\* after a write of the pending edits of the files fs
Written(fs, full) ==
    [x \in P |-> LET here == {f \in fs : Phys(f) = x /\ pend[f] # "no"} IN
        IF here = {} THEN disk[x]
        ELSE IF full \/ \E f \in here : ~Reach(f) THEN "may"
        ELSE IF Cardinality(here) = 1 /\ (\E f \in here : pend[f] = "yes") THEN "mod" ELSE "may"]     \* two pending versions of one file: either
Fine(fs, full) == ~full /\ \A f \in fs : Reach(f)
CommitFile(f, full) ==
    /\ disk' = Written({f}, full)
    /\ pend' = [pend EXCEPT ![f] = "no"]
    /\ last' = [op |-> "cf", f |-> f, full |-> full, exp |-> IF Fine({f}, full) THEN "ok" ELSE "any"]
    /\ UNCHANGED <<clients, away>>
Commit(full) ==
    /\ disk' = Written(Files, full)
    /\ pend' = [f \in Files |-> IF Fine(Files, full) THEN "no" ELSE IF pend[f] = "no" THEN "no" ELSE "may"]
    /\ last' = [op |-> "commit", full |-> full, exp |-> IF Fine(Files, full) THEN "ok" ELSE "any"]
    /\ UNCHANGED <<clients, away>>
\* insertion of lines: pending edits of the file are written first
Insert(f, g, full) ==
    /\ last' = [op |-> "ins", f |-> f, g |-> g, full |-> full,
                exp |-> IF Fine({f}, full) /\ g \in Funcs(f) /\ disk[Phys(f)] # "may" THEN "ok" ELSE IF g \notin Funcs(f) THEN "err" ELSE "any"]
    /\ disk' = LET w == Written({f}, full) IN [w EXCEPT ![Phys(f)] = IF Fine({f}, full) /\ g \in Funcs(f) /\ disk[Phys(f)] # "may" THEN "mod" ELSE IF Fine({f}, full) /\ g \notin Funcs(f) THEN @ ELSE "may"]
    /\ pend' = [pend EXCEPT ![f] = "no"]
    /\ UNCHANGED <<clients, away>>
Client(p, full) ==
    /\ clients' = [clients EXCEPT ![p] = IF @ = "yes" THEN "yes" ELSE IF p \notin away /\ ~full /\ @ = "no" /\ \A f \in Files : PkgOf(f) = p => disk[Phys(f)] # "may" THEN "yes" ELSE "may"]
    /\ last' = [op |-> "client", p |-> p, full |-> full, exp |-> IF p \notin away /\ ~full /\ \A f \in Files : PkgOf(f) = p => disk[Phys(f)] # "may" THEN "ok" ELSE "any"]
    /\ UNCHANGED <<disk, pend, away>>
\* several files instrumented and written at the same time
Parallel(fs, g) ==
    /\ \A f \in fs : Reach(f) /\ g \in Funcs(f) /\ disk[Phys(f)] # "may"
    /\ \A e, f \in fs : e # f => Phys(e) # Phys(f)
    /\ disk' = [x \in P |-> IF \E f \in fs : Phys(f) = x THEN "mod" ELSE disk[x]]
    /\ pend' = [f \in Files |-> IF f \in fs THEN "no" ELSE pend[f]]
    /\ last' = [op |-> "par", fs |-> fs, g |-> g, full |-> FALSE, exp |-> "ok"]
    /\ UNCHANGED <<clients, away>>
\* everything that can be reached and written is as it was; what could not is left for the next restore
Restore(full, clean) ==
    /\ disk' = [x \in P |-> IF ~full /\ \A f \in Files : Phys(f) = x => Reach(f) THEN "orig" ELSE IF disk[x] = "orig" THEN "orig" ELSE "may"]
    /\ clients' = [p \in Pkgs |-> IF p \notin away THEN "no" ELSE IF clients[p] = "no" THEN "no" ELSE "may"]
    /\ last' = [op |-> "restore", full |-> full, clean |-> clean, exp |-> IF Fine(Files, full) /\ away = {} /\ clean THEN "ok" ELSE "any"]
    /\ UNCHANGED <<pend, away>>
Away(p) == p \notin away /\ away' = away \cup {p} /\ last' = [op |-> "away", p |-> p, full |-> FALSE, exp |-> "ok"] /\ UNCHANGED <<disk, pend, clients>>
Back(p) == p \in away /\ away' = away \ {p} /\ last' = [op |-> "back", p |-> p, full |-> FALSE, exp |-> "ok"] /\ UNCHANGED <<disk, pend, clients>>
\* ---- the property ----
AllOrig == disk = [x \in P |-> "orig"] /\ clients = [p \in Pkgs |-> "no"]
Restored == last.op = "restore" /\ ~last.full /\ away = {} => AllOrig
==============================================================================
