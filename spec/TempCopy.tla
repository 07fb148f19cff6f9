------------------------------- MODULE TempCopy ------------------------------
(* Working on a temporary copy: a world of files, three roots (project, Go path, *)
(* module cache) anywhere in it, possibly nested or reached through a link, and  *)
(* the images of the roots that the analysis then works on.                      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
\* a world is a function from path (sequence of names) to [k : kind, c : content]
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Below(root, q) == IsPrefix(root, q) /\ Len(q) > Len(root)
Rel(root, q) == SubSeq(q, Len(root) + 1, Len(q))
\* the image of a root holds exactly what is below it: same names, kinds, contents and link targets
Image(w, root) == {[p |-> Rel(root, q), k |-> w[q].k, c |-> w[q].c] : q \in {x \in DOMAIN w : Below(root, x)}}
\* ---- the run: what is copied is written; the world itself never changes ----
Roots == {"P", "G", "M"}
CopyStates == [Roots -> {"orig", "copying", "copy"}]
==============================================================================
