------------------------------ MODULE RestoreGen -----------------------------
(* Random histories of a modifier over a small tree, with faults.                 *)
EXTENDS Restore, Json, IOUtils, CSV, SequencesExt
VARIABLES world, steps, left
gvars == <<world, steps, left>>
R(S) == RandomElement(IF left = left THEN S ELSE {})
gFiles == {"a/a1.go", "a/a2.go", "a/l1.go", "a/l2.go", "b/b1.go", "b/b2.go", "b/a1.go", "c/c1.go", "c/bad.go", "c/none.go"}
gPkgs == {"a", "b", "c"}
gPkgOf(f) == IF f \in {"a/a1.go", "a/a2.go", "a/l1.go", "a/l2.go"} THEN "a" ELSE IF f \in {"b/b1.go", "b/b2.go", "b/a1.go"} THEN "b" ELSE "c"
gPhys(f) == IF f \in {"a/l1.go", "a/l2.go"} THEN "shared" ELSE f
gFuncs(f) == IF f \in {"c/bad.go", "c/none.go"} THEN {} ELSE {"One", "Two", "*T.Do", "G"}
Names == {"One", "One", "Two", "*T.Do", "G", "None", "Asm"}
FileKinds == {"plain", "plain2", "crlf", "bom", "noeol", "comments", "generated"}
GInit == /\ Init /\ steps = <<>> /\ left = 30
         /\ world = [kind |-> [f \in gFiles |-> "plain"], mode |-> [f \in gFiles |-> 420], bkp |-> {}, link |-> "sym"]
Step == [last |-> last', disk |-> disk', clients |-> clients', away |-> away']
Rec == steps' = Append(steps, Step) /\ left' = left - 1 /\ UNCHANGED world
Setup == /\ left = 30 /\ left' = 29 /\ UNCHANGED <<vars, steps>>
         /\ \E k \in {[f \in gFiles |-> R({x \in FileKinds : f = f})]} : \E m \in {[f \in gFiles |-> R({x \in {420, 384, 493, 292} : f = f})]} :
            \E b \in {{f \in gFiles : R(IF f = f THEN 1..4 ELSE {}) = 1}} :
              world' = [kind |-> k, mode |-> m, bkp |-> b, link |-> R({"sym", "hard", "same"})]
Full == R({1, 2, 3, 4, 5, 6}) = 1
Active == {f \in Files : pend[f] # "no"}
Pick == R(IF Active # {} /\ R({1, 2, 3}) = 1 THEN Active ELSE Files)
Op == /\ left \in 3..29
      /\ \E d \in {R(1..20)} : \E f \in {Pick} : \E g \in {R(Names)} : \E full \in {Full} : \E p \in {R(Pkgs)} :
           IF d <= 6 THEN \E k \in {R({"ret", "pan", "ent", "fin"})} : Inject(f, g, k)
           ELSE IF d <= 8 THEN CommitFile(f, full)
           ELSE IF d <= 10 THEN Insert(f, g, full)
           ELSE IF d <= 12 THEN Commit(full)
           ELSE IF d <= 14 THEN Client(p, full)
           ELSE IF d = 15 THEN \E e \in {R(Files)} :
                   IF e # f /\ ENABLED Parallel({e, f}, "One") THEN Parallel({e, f}, "One") ELSE Inject(f, "One", "ret")
           ELSE IF d <= 17 THEN \E c \in {R({TRUE, TRUE, FALSE})} : Restore(full, c)
           ELSE IF away # {} THEN \E q \in {R(away)} : Back(q) ELSE IF d = 18 THEN Away(p) ELSE Inject(f, g, "ret")
      /\ Rec
\* at the end the packages come back and everything is restored
End == /\ left \in 1..2
       /\ IF away # {} THEN (\E q \in away : Back(q)) /\ steps' = Append(steps, Step) /\ UNCHANGED <<world, left>>
          ELSE Restore(FALSE, TRUE) /\ Rec
Next == Setup \/ Op \/ End
Spec == GInit /\ [][Next]_<<vars, gvars>>
Ok == Restored
Emit == left = 0 => CSVWrite("%1$s", <<ToJson([world |-> [kind |-> world.kind, mode |-> world.mode, bkp |-> world.bkp, link |-> world.link], steps |-> steps])>>, IOEnv.OUT)
==============================================================================
