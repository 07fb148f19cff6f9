----------------------------- MODULE TempCopyGen -----------------------------
EXTENDS TempCopy, Json, IOUtils, CSV, SequencesExt
VARIABLES world, roots, links, missing, via, n, left
vars == <<world, roots, links, missing, via, n, left>>
R(S) == RandomElement(IF n = n THEN S ELSE {})
PPos == {<<"proj">>, <<"gp", "src", "ex.com", "proj">>, <<"gp2">>, <<"..proj">>, <<"deep", "er", "proj">>}
GPos == {<<"gp">>, <<"gp", "..x">>, <<"deep", "gp">>}
MPos(p, g) == {g \o <<"pkg", "mod">>, g \o <<"mod">>, g \o <<"..mod">>, g \o <<"a", "b">>, g, <<"mods">>, <<"gp-mods">>, p \o <<"mods">>, <<"deep">>}
Names == {"a", "b.go", "..x", ".hid", "pkg", "mod", "src", "Z z"}
Dirs(w) == {q \in DOMAIN w : w[q].k \in {"dir", "rodir"}}
RECURSIVE WithDirs(_, _)
\* adds a directory and its parents
WithDirs(w, p) == IF p = <<>> THEN w ELSE WithDirs(IF p \in DOMAIN w THEN w ELSE w @@ (p :> [k |-> "dir", c |-> ""]), SubSeq(p, 1, Len(p) - 1))
Empty == [x \in {} |-> x]
Init == world = Empty /\ roots = Empty /\ links = {} /\ missing = "" /\ via = FALSE /\ n = 0 /\ left = 0
Place == /\ n = 0 /\ n' = 1 /\ left' = R(4..16)
         /\ \E p \in {R(PPos)} : \E g \in {R(GPos)} : \E m \in {R(MPos(p, g))} :
              /\ roots' = [P |-> p, G |-> g, M |-> m]
              /\ \E v \in {R({TRUE, FALSE, FALSE})} :
                   /\ via' = (v /\ m # g)
                   \* the module cache may be named through a link inside the Go path
                   /\ world' = WithDirs(WithDirs(WithDirs(Empty, p), g), m) @@ (Append(p, "go.mod") :> [k |-> "file", c |-> "GOMOD"])
                               @@ (IF v /\ m # g THEN (Append(g, "via") :> [k |-> "link", c |-> "@M"]) ELSE Empty)
         /\ links' = R(SUBSET {"P", "G", "M"} \cup {{}}) /\ missing' = R({"", "", "", "", "P", "G", "M"})
\* one more file, directory or link somewhere
Add == /\ n = 1 /\ left > 0 /\ left' = left - 1
       /\ \E d \in {R(Dirs(world))} : \E nm \in {R(Names)} : \E k \in {R({"file", "file", "rofile", "dir", "dir", "rodir", "link", "dangling", "dirlink"})} :
            world' = IF Append(d, nm) \in DOMAIN world THEN world
                     ELSE world @@ (Append(d, nm) :> [k |-> k, c |-> CASE k \in {"file", "rofile"} -> R({"", "x", "package b", "L"})
                                                                       [] k = "link" -> R({"a", "b.go", "./Z z", "../a", "../../proj", "..x", "/tmp/vf-none/abs", "pkg/../a"}) [] k = "dangling" -> "no/where" [] k = "dirlink" -> "." [] OTHER -> ""])
       /\ UNCHANGED <<roots, links, missing, via, n>>
Finish == n = 1 /\ left = 0 /\ n' = 2 /\ UNCHANGED <<world, roots, links, missing, via, left>>
Next == Place \/ Add \/ Finish
Spec == Init /\ [][Next]_vars
\* nested roots: the image of the inner one is the part of the outer one's image below it
NestedImages == n = 2 => \A a, b \in {"P", "G", "M"} : IsPrefix(roots[a], roots[b]) =>
    \A e \in Image(world, roots[b]) : [e EXCEPT !.p = Rel(roots[a], roots[b]) \o @] \in Image(world, roots[a])
Emit == n = 2 => CSVWrite("%1$s", <<ToJson([roots |-> roots, links |-> links, missing |-> missing, via |-> via,
          world |-> {[p |-> q, k |-> world[q].k, c |-> world[q].c] : q \in DOMAIN world},
          img |-> [r \in Roots |-> Image(world, roots[r])]])>>, IOEnv.OUT)
==============================================================================
