----------------------------- MODULE CompareGen ------------------------------
(* Random behaviours: a result is recorded event by event, a second baseline run  *)
(* and a post-update run are derived from it by random edits, and the stability   *)
(* and the verdict the specification demands are written out for replay.          *)
EXTENDS Compare, Json, IOUtils, CSV
CONSTANTS MaxEvents, MaxEdits
VARIABLES r1, r2, post, phase, left, mult
vars == <<r1, r2, post, phase, left, mult>>
MCNames == <<"a", "b", "c">>
Fr(file, line, fn) == [file |-> file, line |-> line, fn |-> fn]
MCStacks == {<<Fr("./a.go", 1, "m.F")>>, <<Fr("./a.go", 2, "m.F")>>, <<Fr("./a.go", 1, "m.G"), Fr("./b.go", 9, "m.T")>>,
             <<Fr("dep@v1/d.go", 7, "dep.D"), Fr("./a.go", 1, "m.F")>>, <<Fr("./vendor/x.go", 7, "x.X"), Fr("./a.go", 1, "m.G"), Fr("./b.go", 3, "m.T")>>,
             <<Fr("./b.go", 9, "m.T"), Fr("./a.go", 1, "m.G")>>, <<>>}
\* (the state reference keeps TLC from treating the draw as a constant)
R(S) == RandomElement(IF left = left THEN S ELSE {})
RLeaf == Leaf(R(LeafValues))
RMap1 == [D \in SUBSET Names |-> [x \in D |-> RLeaf]][R(SUBSET Names)]
RNode == [k \in 1..4 |-> IF k = 1 THEN (CHOOSE y \in {IF DOMAIN z = {} THEN <<Leaf("x")>> ELSE <<Node("", z)>> : z \in {TLCEval(RMap1)}} : TRUE)[1] ELSE RLeaf][R(1..4)]
RTree == [D \in SUBSET Names |-> [x \in D |-> RNode]][R(SUBSET Names)]
RFrame == TLCEval(Frame(TLCEval(RTree), R(Stacks), R(0..MaxTime)))
Record(r) == \E k \in {R(1..10)} :
     r' = CASE k \in 1..7 -> AddCall(r, R(Callers), RFrame)
            [] k = 8      -> AddPP(r, R(Callers), R(Msgs))
            [] k = 9      -> AddMP(r, R(Callers), R(Msgs))
            [] k = 10     -> AddExt(r, R(Callers), RFrame)
DropAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
EditFrames(fs) ==
  [k \in 1..9 |-> [i \in 1..Len(fs) |->
     CASE k = 1 -> [fs EXCEPT ![i].f = TLCEval(RTree)]
       [] k = 2 -> DropAt(fs, i)
       [] k = 3 -> Append(fs, fs[i])
       [] k = 4 -> [fs EXCEPT ![i].s = R(Stacks)]
       [] k = 5 -> [fs EXCEPT ![i].t = R(0..MaxTime)]
       [] k = 6 -> IF i < Len(fs) THEN [fs EXCEPT ![i] = fs[i + 1], ![i + 1] = fs[i]] ELSE fs
       [] k \in 7..8 -> IF DOMAIN fs[i].f = {} THEN fs
                        ELSE [n \in DOMAIN fs[i].f |-> [fs EXCEPT ![i].f = [fs[i].f EXCEPT ![n] = RNode]]][R(DOMAIN fs[i].f)]
       [] k = 9 -> IF DOMAIN fs[i].f = {} THEN fs
                   ELSE [n \in DOMAIN fs[i].f |-> [fs EXCEPT ![i].f = [m \in DOMAIN fs[i].f \ {n} |-> fs[i].f[m]]]][R(DOMAIN fs[i].f)]
     ][R(1..Len(fs))]][R(1..9)]
EditMap(f) == IF DOMAIN f = {} THEN f
              ELSE [c \in DOMAIN f |-> IF f[c] = <<>> THEN f ELSE [f EXCEPT ![c] = TLCEval(EditFrames(f[c]))]][R(DOMAIN f)]
EditMsgs(f) == IF DOMAIN f = {} THEN f
               ELSE [c \in DOMAIN f |-> [k \in 1..2 |-> IF k = 1 THEN Put(f, c, R(Msgs)) ELSE [f EXCEPT ![c] = IF f[c] = <<>> THEN f[c] ELSE Tail(f[c])]][R(1..2)]][R(DOMAIN f)]
DropKey(f) == IF DOMAIN f = {} THEN f ELSE [c \in DOMAIN f |-> [x \in DOMAIN f \ {c} |-> f[x]]][R(DOMAIN f)]
Edited(r) == [k \in 1..11 |->
     CASE k \in 1..6 -> [r EXCEPT !.callers = TLCEval(EditMap(r.callers))]
       [] k = 7 -> [r EXCEPT !.ext = TLCEval(EditMap(r.ext))]
       [] k = 8 -> [r EXCEPT !.pp = TLCEval(EditMsgs(r.pp)), !.mp = TLCEval(EditMsgs(r.mp))]
       [] k = 9 -> [r EXCEPT !.fail = ~r.fail]
       [] k = 10 -> [r EXCEPT !.callers = TLCEval(DropKey(r.callers))]
       [] k = 11 -> AddPP(r, R(Callers), R(Msgs))][R(1..11)]
Init == r1 = NewResult /\ r2 = NewResult /\ post = NewResult /\ phase = "start" /\ left = 0 /\ mult = 1
Next == \/ phase = "start" /\ phase' = "record" /\ left' = R(1..MaxEvents) /\ mult' = R({1, 2, 3}) /\ UNCHANGED <<r1, r2, post>>
        \/ phase = "record" /\ left > 0 /\ Record(r1) /\ left' = left - 1 /\ UNCHANGED <<r2, post, phase, mult>>
        \/ phase = "record" /\ left = 0 /\ phase' = "rerun" /\ r2' = r1 /\ left' = R(0..MaxEdits) /\ UNCHANGED <<r1, post, mult>>
        \/ phase = "rerun" /\ left > 0 /\ r2' = Edited(r2) /\ left' = left - 1 /\ UNCHANGED <<r1, post, phase, mult>>
        \/ phase = "rerun" /\ left = 0 /\ phase' = "update" /\ post' = r1 /\ left' = R(0..MaxEdits) /\ UNCHANGED <<r1, r2, mult>>
        \/ phase = "update" /\ left > 0 /\ post' = Edited(post) /\ left' = left - 1 /\ UNCHANGED <<r1, r2, phase, mult>>
        \/ phase = "update" /\ left = 0 /\ phase' = "done" /\ UNCHANGED <<r1, r2, post, left, mult>>
Spec == Init /\ [][Next]_vars
Laws == phase = "done" => NoFalseAlarm(r1, mult) /\ NoFalseAlarm(post, mult) /\ StableSelf(r1) /\ OnlyStable(r1, r2, post)
Emit == phase = "done" => CSVWrite("%1$s", <<ToJson([r1 |-> r1, r2 |-> r2, post |-> post, mult |-> mult,
            stable |-> StableResult(r1, r2), direct |-> TestVerdict(r1, post, mult),
            verdict |-> TestVerdict(StableResult(r1, r2), post, mult)])>>, IOEnv.OUT)
==============================================================================
