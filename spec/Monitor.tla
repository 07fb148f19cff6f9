------------------------------- MODULE Monitor -------------------------------
(* Recording of one test: which event ends up where, and what a recorded call    *)
(* holds.                                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
\* points: what an identity stands for, per kind of event
StateOf == (1 :> "m/p.F") @@ (2 :> "m/p.F") @@ (3 :> "m/p.(*T).M") @@ (14 :> "m/p.Ext")
ExtOf   == (4 :> "m/p.Ext") @@ (5 :> "m/p.F")
PPOf    == (6 :> "m/p.F") @@ (13 :> "m/p.(*T).M")
MPOf    == (7 :> "dep/d.G") @@ (8 :> "m/p.F")
EntryOf == (9 :> "dep/d.G") @@ (10 :> "dep/d.H") @@ (11 :> "dep/d.G")
Tables == {"callers", "ext", "pp", "mp"}
\* where an event is recorded: <<table, identity>>, or <<>> (an unknown point, or an entry)
Route(e) ==
  CASE e.k = "state" -> IF e.id \in DOMAIN ExtOf THEN <<"ext", ExtOf[e.id]>> ELSE IF e.id \in DOMAIN StateOf THEN <<"callers", StateOf[e.id]>> ELSE <<>>
    [] e.k = "panic" -> IF e.id \in DOMAIN PPOf THEN <<"pp", PPOf[e.id]>> ELSE IF e.id \in DOMAIN MPOf THEN <<"mp", MPOf[e.id]>> ELSE <<>>
    [] OTHER -> <<>>
Idents == UNION {{f[x] : x \in DOMAIN f} : f \in {StateOf, ExtOf, PPOf, MPOf}}
\* the recorder as a state machine: rec[table][identity] is the sequence of events recorded there
EmptyRec == [t \in Tables |-> [i \in Idents |-> <<>>]]
Record(rec, e, nr) == LET r == Route(e) IN IF r = <<>> THEN rec ELSE [rec EXCEPT ![r[1]][r[2]] = Append(@, nr)]
Hit(hit, e) == IF e.k = "entry" THEN hit \cup {e.id} ELSE hit
Known(hit) == hit \cap DOMAIN EntryOf
\* ---- content of a recorded call ----
Keep(name, typ, parent) == ~(parent = "reflect.Value" /\ name \in {"typ_", "flag", "ptr"}) /\ typ \notin {"reflect.rtype", "reflect.flag"}
StringTypes == {"string", "main.MyString", "mystring"}
RECURSIVE Collect(_, _)
\* long renderings of values that are no strings are replaced by a digest
LeafText(fd) == IF fd.v \in {"L1", "L2"} /\ fd.y \notin {"string", "mystring"} THEN "digest:" \o fd.v ELSE fd.v
Collect(fds, parent) ==
  LET kept == SelectSeq(fds, LAMBDA fd : Keep(fd.n, fd.y, parent))
  IN [i \in 1..Len(kept) |-> [n |-> kept[i].n, v |-> IF kept[i].c = <<>> THEN LeafText(kept[i]) ELSE "", c |-> Collect(kept[i].c, kept[i].y)]]
TrimOf == ("p1" :> "./a.go") @@ ("p2" :> "./sub/b.go") @@ ("pv" :> "./vendor/ex.com/x/y.go") @@ ("g" :> "/src/fmt/print.go")
          @@ ("m" :> "ex.com/m@v1.0.0/f.go") @@ ("o" :> "/usr/lib/z.go") @@ ("sib" :> "SIB") @@ ("pm" :> "./pkg/mod/q.go")
Millis(ns) == (ns + 500000) \div 1000000
Frame(e) == [f |-> Collect(e.f, ""), s |-> [i \in 1..Len(e.s) |-> [e.s[i] EXCEPT !.file = TrimOf[@]]], t |-> Millis(e.t)]
\* ---- any interleaving of goroutines: everything once, each goroutine in its own order ----
Explains(ev, got) ==
  \A t \in Tables, i \in Idents :
    LET l == got[t][i]
        want == {n \in 1..Len(ev) : Route(ev[n]) = <<t, i>>}
    IN /\ {l[j] : j \in 1..Len(l)} = want /\ Len(l) = Cardinality(want)
       /\ \A a, b \in 1..Len(l) : a < b /\ ev[l[a]].g = ev[l[b]].g => l[a] < l[b]
==============================================================================
