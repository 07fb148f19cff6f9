-------------------------------- MODULE Wire ---------------------------------
(* Captured values.  A program state is a heap of objects (structs, interface    *)
(* cells, slices, maps) that refer to each other in any way, including cycles    *)
(* and shared parts.  A capture renders named values as trees; this module says  *)
(* which trees are faithful renderings.                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxDepth,   \* containers nested deeper are cut and marked
          MaxLen      \* longer slices, maps and strings are cut

\* values:  [k |-> "s", id]            a scalar (id stands for a concrete value of some kind)
\*          [k |-> "n", t]             nil of type t
\*          [k |-> "p", o]             pointer to object o (struct or interface cell)
\*          [k |-> "pp", o]            pointer to a pointer to struct o
\*          [k |-> "v", o]             a copy of struct o held by value
\*          [k |-> "sl", o, n]         the first n elements of slice object o
\*          [k |-> "m", o]             map object o
\* objects: [k |-> "struct"|"cell"|"slice"|"map", f |-> sequence of [n |-> name, x |-> value]]

Min(a, b) == IF a < b THEN a ELSE b
\* follows interfaces and pointers: the references passed, the container or scalar reached, or a loop
RECURSIVE Unwrap(_, _, _)
Unwrap(heap, v, seen) ==
  CASE v.k = "p" /\ heap[v.o].k = "cell" ->
         LET r == <<"p", v.o, 0>> IN
         IF r \in seen THEN [refs |-> seen, at |-> [k |-> "loop"]]
         ELSE Unwrap(heap, heap[v.o].f[1].x, seen \cup {r})
    [] v.k \in {"p", "pp"} /\ heap[v.o].k = "struct" -> [refs |-> seen \cup {<<"p", v.o, 0>>}, at |-> [k |-> "st", o |-> v.o]]
    [] v.k = "v"  -> [refs |-> seen, at |-> [k |-> "st", o |-> v.o]]
    [] v.k = "sl" -> [refs |-> IF v.n > 0 THEN seen \cup {<<"sl", v.o, v.n>>} ELSE seen, at |-> v]
    [] v.k = "m"  -> [refs |-> seen \cup {<<"m", v.o, 0>>}, at |-> v]
    [] OTHER      -> [refs |-> seen, at |-> v]
\* the children a container shows: all fields; the first MaxLen elements; map entries (any MaxLen of the smallest keys)
Kids(heap, at) ==
  CASE at.k = "st" -> heap[at.o].f
    [] at.k = "sl" -> SubSeq(heap[at.o].f, 1, Min(at.n, MaxLen))
    [] at.k = "m"  -> SubSeq(heap[at.o].f, 1, Min(Len(heap[at.o].f), MaxLen))
    [] OTHER       -> <<>>
Child(kids, name) == {i \in 1..Len(kids) : kids[i].n = name}
RECURSIVE ValueAt(_, _, _)
ValueAt(heap, v, path) ==     \* <<value>> or <<>>
  IF path = <<>> THEN <<v>>
  ELSE LET kids == Kids(heap, Unwrap(heap, v, {}).at)
           c == Child(kids, path[1])
       IN IF c = {} THEN <<>> ELSE ValueAt(heap, kids[CHOOSE i \in c : TRUE].x, Tail(path))
RECURSIVE NodeAt(_, _)
NodeAt(t, path) == IF path = <<>> THEN <<t>>
                   ELSE LET c == Child(t.c, path[1]) IN IF c = {} THEN <<>> ELSE NodeAt(t.c[CHOOSE i \in c : TRUE], Tail(path))
TypeOf(heap, at) == CASE at.k = "st" -> "main.N" [] at.k = "sl" -> "[]interface {}" [] at.k = "m" -> "map[string]interface {}" [] OTHER -> ""
\* a reference to another place is faithful when that place shows the very same object
RECURSIVE Resolve(_, _, _)    \* the place finally named, through places that name another one
Resolve(rootNode, q, fuel) ==
  LET nd == NodeAt(rootNode, q) IN
  IF nd = <<>> THEN <<"nowhere">> ELSE IF nd[1].v # "cyc" THEN <<"at", q>>
  ELSE IF fuel = 0 THEN <<"nowhere">> ELSE Resolve(rootNode, nd[1].q, fuel - 1)
SharedRef(heap, root, rootNode, u, q) ==
  LET r == Resolve(rootNode, q, 12)
      w == ValueAt(heap, root, IF r[1] = "at" THEN r[2] ELSE q)
  IN w # <<>> /\ (r[1] = "at" \/ u.at.k = "loop")
     /\ \/ Unwrap(heap, w[1], {}).refs \cap u.refs # {}
        \/ u.at.k = "s" /\ Unwrap(heap, w[1], {}).at = u.at   \* a scalar of a slice type, reached twice
RECURSIVE Faithful(_, _, _, _, _, _, _)
Faithful(heap, root, rootNode, nd, name, v, depth) ==
  LET u == Unwrap(heap, v, {})
      kids == Kids(heap, u.at)
  IN /\ nd.n = name
     /\ CASE nd.v = "cyc"    -> SharedRef(heap, root, rootNode, u, nd.q) /\ nd.c = <<>>
          [] u.at.k = "loop" -> FALSE
          [] u.at.k = "n"    -> /\ nd.c = <<>>
                                /\ \/ nd.v = "nil" /\ (u.at.t = nd.y \/ u.at.t = "any")
                                   \/ nd.v = "max" /\ depth >= MaxDepth
          [] depth >= MaxDepth -> nd.v = "max" /\ nd.c = <<>>
          [] u.at.k = "s"    -> nd.v = "s:" \o u.at.id /\ nd.c = <<>>
          [] OTHER -> /\ nd.v = (IF Len(kids) = 0 THEN "nil" ELSE "kids") /\ nd.y = TypeOf(heap, u.at) /\ Len(nd.c) = Len(kids)
                      /\ IF u.at.k = "m"
                         THEN \A i \in 1..Len(kids) : Cardinality(Child(nd.c, kids[i].n)) = 1
                                /\ Faithful(heap, root, rootNode, nd.c[CHOOSE j \in Child(nd.c, kids[i].n) : TRUE], kids[i].n, kids[i].x, depth + 1)
                         ELSE \A i \in 1..Len(kids) : Faithful(heap, root, rootNode, nd.c[i], kids[i].n, kids[i].x, depth + 1)
\* a whole event
GoodEvent(c) ==
  /\ c.got.id = c.id /\ Len(c.got.fields) = Len(c.snaps)
  /\ \A i \in 1..Len(c.snaps) : Faithful(c.heap, c.snaps[i].x, c.got.fields[i], c.got.fields[i], c.snaps[i].n, c.snaps[i].x, 0)
  /\ Len(c.got.stack) >= Len(c.chain) + 1
  /\ c.got.stack[1] = "main.site"
  /\ \A i \in 1..Len(c.chain) : c.got.stack[i + 1] = "main." \o c.chain[Len(c.chain) + 1 - i]
  /\ c.got.timeok /\ c.got.unaltered /\ c.got.count = 1
==============================================================================
