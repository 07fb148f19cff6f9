----------------------------- MODULE FieldsGen -------------------------------
(* Checks the identity, flattening, comparison and stability operators of        *)
(* Fields over all trees up to Depth, and writes every tree (with its flat form) *)
(* for replay.                                                                   *)
EXTENDS Fields, Json, IOUtils, CSV
CONSTANTS Depth
MCNames == <<"a", "b">>
MCNamesOdd == <<"a", "a.b", "b">>
MCNames3 == <<"a", "b", "cc">>
MCNamesEmpty == <<"", "a">>   \* an empty name occurs only below another one (an empty map key)
VARIABLE tree
T == TreesTo(Depth)
Init == tree \in T
Spec == Init /\ [][FALSE]_tree
ASSUME IdInjective == Cardinality({IdTokens(t) : t \in T}) = Cardinality(T)
FlatComplete == Cardinality(Flat(tree)) = LeafCount(tree) /\ Cardinality({x[1] : x \in Flat(tree)}) = LeafCount(tree)
\* equal flat forms mean equal leaves (node values do not count)
SelfSame == Changed(tree, tree) = {} /\ (NodeValues = {""} => Stable(tree, tree) = tree)
Emit == CSVWrite("%1$s", <<ToJson([tree |-> tree, flat |-> FlatFun(Flat(tree)), id |-> ToString(IdTokens(tree))])>>, IOEnv.OUT)
NestedComplete == "" \notin DOMAIN tree => FlatComplete
EmitNested == "" \notin DOMAIN tree => Emit
==============================================================================
