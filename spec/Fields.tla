------------------------------- MODULE Fields --------------------------------
(* Captured field trees: what they are, how they are identified (the content    *)
(* identity behind the compact encoding) and how they flatten to path -> value. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NameSeq,      \* field names in sorted order
          LeafValues,   \* rendered values
          NodeValues    \* values a node with children may carry itself ("" in captures)
Names == {NameSeq[i] : i \in 1..Len(NameSeq)}
NoKids == <<>>                      \* the empty map
Leaf(v) == [v |-> v, c |-> NoKids]
Node(w, m) == [v |-> w, c |-> m]
Maps(S) == UNION {[D -> S] : D \in (SUBSET Names)}
IsLeaf(n) == DOMAIN n.c = {}
Leaves == {Leaf(v) : v \in LeafValues}
RECURSIVE TreesTo(_)
TreesTo(d) == IF d = 0 THEN {[x \in {} |-> x]}
              ELSE Maps(Leaves \cup {Node(w, m) : w \in NodeValues, m \in {t \in TreesTo(d - 1) : DOMAIN t # {}}})

(* ---- identity: a token sequence standing for the hashed bytes ---- *)
Present(m) == SelectSeq(NameSeq, LAMBDA n : n \in DOMAIN m)
RECURSIVE IdTokens(_), IdFold(_, _)
IdFold(m, names) == IF names = <<>> THEN <<>>
                    ELSE <<Head(names), m[Head(names)].v>> \o IdTokens(m[Head(names)].c) \o IdFold(m, Tail(names))
IdTokens(m) == <<Cardinality(DOMAIN m)>> \o IdFold(m, Present(m))
\* the identity the code once used: no level framing, no node values (kept to show the check has teeth)
RECURSIVE OldTokens(_), OldFold(_, _)
OldFold(m, names) == IF names = <<>> THEN <<>>
    ELSE LET n == m[Head(names)] IN
         <<Head(names)>> \o (IF IsLeaf(n) THEN <<"leaf", n.v>> ELSE <<"node">> \o OldTokens(n.c)) \o OldFold(m, Tail(names))
OldTokens(m) == OldFold(m, Present(m))

(* ---- flattening ---- *)
RECURSIVE Flatten(_, _)
Join(p, n) == IF p = "" THEN n ELSE p \o "." \o n
Flatten(p, m) == UNION {IF IsLeaf(m[n]) THEN {<<Join(p, n), m[n].v>>} ELSE Flatten(Join(p, n), m[n].c) : n \in DOMAIN m}
Flat(m) == Flatten("", m)
FlatFun(S) == [p \in {x[1] : x \in S} |-> (CHOOSE x \in S : x[1] = p)[2]]
RECURSIVE LeafCount(_)
LeafCount(m) == LET RECURSIVE Sum(_)
                    Sum(D) == IF D = {} THEN 0 ELSE LET n == CHOOSE x \in D : TRUE
                              IN (IF IsLeaf(m[n]) THEN 1 ELSE LeafCount(m[n].c)) + Sum(D \ {n})
                IN Sum(DOMAIN m)

(* ---- comparison of two captures ---- *)
Changed(a, b) == LET fa == FlatFun(Flat(a)) fb == FlatFun(Flat(b)) IN
                 {p \in DOMAIN fa \cup DOMAIN fb : p \notin DOMAIN fa \/ p \notin DOMAIN fb \/ fa[p] # fb[p]}

(* ---- stability of two runs: what both captured alike, on the tree ---- *)
RECURSIVE Stable(_, _)
Stable(a, b) ==
  LET keep == {n \in DOMAIN a \cap DOMAIN b :
                 \/ IsLeaf(a[n]) /\ IsLeaf(b[n]) /\ a[n].v = b[n].v
                 \/ ~IsLeaf(a[n]) /\ ~IsLeaf(b[n]) /\ DOMAIN Stable(a[n].c, b[n].c) # {}}
  IN [n \in keep |-> IF IsLeaf(a[n]) THEN Leaf(a[n].v) ELSE Node("", Stable(a[n].c, b[n].c))]
==============================================================================
