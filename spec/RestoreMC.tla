------------------------------ MODULE RestoreMC ------------------------------
EXTENDS Restore
mcFiles == {"a1", "a2", "b1"}
mcPkgs == {"a", "b"}
mcPkgOf(f) == IF f = "b1" THEN "b" ELSE "a"
mcPhys(f) == IF f = "b1" THEN "b1" ELSE "s"
mcFuncs(f) == {"One"}
Next == \/ \E f \in Files : \E g \in {"One", "None"} : Inject(f, g, "ret") \/ \E full \in BOOLEAN : CommitFile(f, full) \/ Insert(f, g, full)
        \/ \E full \in BOOLEAN : Commit(full) \/ Restore(full, TRUE) \/ \E p \in Pkgs : Client(p, full)
        \/ \E p \in Pkgs : Away(p) \/ Back(p)
        \/ \E fs \in SUBSET Files : Cardinality(fs) = 2 /\ Parallel(fs, "One")
Spec == Init /\ [][Next]_vars
\* nothing is lost: from any state the packages can come back and a restore then makes everything original
Recoverable == [][ (last'.op = "restore" /\ ~last'.full /\ away = {}) => AllOrig' ]_vars
\* a file changes only in a commit, an insertion or a restore
Frame == [][ disk' # disk => last'.op \in {"cf", "commit", "ins", "par", "restore"} ]_vars
View == <<disk, pend, clients, away>>
==============================================================================
