------------------------------- MODULE CodecGen ------------------------------
(* Random messages of the grammar, then faults applied to them, each with the    *)
(* verdict of the specification.                                                 *)
EXTENDS Codec, Json, IOUtils, CSV
CONSTANTS Faults
VARIABLES ep, base, mut, n
R(S) == RandomElement(IF n = n THEN S ELSE {})
Bytes == {0, 1, 2, 9, 31, 32, 40, 64, 65, 66, 97, 98, 127, 128, 129, 195, 255}
Ones(k) == [i \in 1..k |-> 255]
Zs(k) == [i \in 1..k |-> 128]
Vars == {<<0>>, <<1>>, <<2>>, <<5>>, <<127>>, <<128, 1>>, <<129, 128, 0>>, <<255, 255, 255, 255, 15>>, <<254, 255, 255, 255, 15>>,
         Ones(9) \o <<1>>, Ones(8) \o <<127>>, Zs(5) \o <<1>>, <<172, 2>>, <<128, 128, 4>>}
Huge == {<<255, 255, 255, 255, 15>>, Zs(4) \o <<16>>, Zs(8) \o <<64>>, Ones(9) \o <<1>>, Ones(10) \o <<1>>, Zs(9) \o <<1>>, Zs(9) \o <<2>>,
         <<128, 128, 128, 1>>, <<128, 128, 64>>, Zs(5) \o <<1>>}
EncLen == [k \in 0..400 |-> IF k < 128 THEN <<k>> ELSE <<128 + (k % 128), k \div 128>>]
RECURSIVE Cat(_, _)
Cat(f, k) == IF k = 0 THEN <<>> ELSE Cat(f, k - 1) \o f[k]
Blob(k) == [i \in 1..k |-> R(Bytes)]
\* (random choices that are used twice are bound by function application)
RStr == [k \in 0..4 |-> EncLen[k] \o TLCEval(Blob(k))][R(0..4)]
Rep(G(_), lo, hi) == [k \in lo..hi |-> EncLen[k] \o TLCEval(Cat(TLCEval([i \in 1..k |-> TLCEval(G(i))]), k))][R(lo..hi)]
GV(i) == R(Vars)
GS(i) == RStr
G4(i) == Blob(4)
G8(i) == Blob(8)
RECURSIVE RValue(_)
RField(d) == RStr \o RStr \o RValue(d)
RKids(d, hi) == [k \in 0..hi |-> EncLen[k] \o TLCEval(Cat(TLCEval([i \in 1..k |-> TLCEval(RField(d - 1))]), k))][R(0..hi)]
RValue(d) ==
  [t \in {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 32, 33, 34, 35, 36, 37, 38, 39, 40, 64, 65, 66} |->
    IF t >= 64 /\ d = 0 THEN <<0>>
    ELSE <<t>> \o (CASE t = 0 -> <<>>
      [] t = 1 -> <<R({0, 1, 2, 255})>>
      [] t \in 2..5 -> R(Vars)
      [] t = 6 -> Blob(4)
      [] t = 7 -> Blob(8)
      [] t = 8 -> Blob(16)
      [] t = 9 -> RStr
      [] t = 32 -> [k \in 0..MaxLen |-> EncLen[k] \o TLCEval(Blob((k + 7) \div 8))][R({0, 1, MaxLen - 1, MaxLen})]
      [] t = 33 -> [k \in 0..MaxLen |-> EncLen[k] \o TLCEval(Blob(k))][R(0..MaxLen)]
      [] t \in 34..37 -> Rep(GV, 0, 3)
      [] t = 38 -> Rep(G4, 0, 3)
      [] t = 39 -> Rep(G8, 0, 2)
      [] t = 40 -> Rep(GS, 0, 3)
      [] OTHER -> RKids(d, 3))
  ][R({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 32, 33, 34, 35, 36, 37, 38, 39, 40, 64, 65, 66})]
FrameOf(sz) == <<R(0..(sz - 1)), R(0..(sz - 1))>> \o R(Vars)
RStack == [c \in 0..3 |-> IF c = 0 THEN <<0>> ELSE
            [sz \in 1..6 |-> EncLen[c] \o EncLen[sz] \o Cat(TLCEval([i \in 1..sz |-> TLCEval(RStr)]), sz) \o Cat(TLCEval([i \in 1..c |-> TLCEval(FrameOf(sz))]), c)][R(1..(2 * c))]][R(0..3)]
RFields == [k \in 0..5 |-> EncLen[k] \o Cat(TLCEval([i \in 1..k |-> TLCEval(RField(2))]), k)][R({0, 1, 2, 3, 4, 5})]
Make(e) == R(Vars) \o (CASE e = "error" -> RStr \o RStack
                        [] e = "panic" -> Blob(8) \o RStr
                        [] e = "point" -> Blob(8) \o RStack
                        [] OTHER -> Blob(8) \o RStack \o RFields)
\* ---- faults ----
Splice(b, i, j, x) == SubSeq(b, 1, i - 1) \o x \o SubSeq(b, j + 1, Len(b))      \* replaces b[i..j]
Fault(b) ==
  [i \in 1..Len(b) |->
    [k \in 1..9 |->
      CASE k = 1 -> SubSeq(b, 1, i - 1)
        [] k \in 2..3 -> Splice(b, i, i, <<R(Bytes)>>)
        [] k = 4 -> Splice(b, i, i, <<(b[i] + R({1, 255, 128})) % 256>>)
        [] k = 5 -> Splice(b, i, i, <<>>)
        [] k = 6 -> Splice(b, i, i - 1, <<R(Bytes)>>)
        [] k = 7 -> Splice(b, i, i, R(Huge))
        [] k = 8 -> b \o Blob(3)
        [] k = 9 -> Splice(b, i, i - 1, SubSeq(b, i, Min(Len(b), i + 5)))
    ][R(1..9)]
  ][R(1..Len(b))]
Init == ep = "" /\ base = <<>> /\ mut = <<>> /\ n = 0
Next == \/ /\ n = 0 /\ n' = 1
           /\ ep' = R({"point", "state", "state", "state", "panic", "error"})
           /\ base' = TLCEval(Make(ep')) /\ mut' = base'
        \/ /\ n > 0 /\ n <= Faults /\ n' = n + 1
           /\ mut' = TLCEval(Fault(IF n % 5 = 4 /\ mut # <<>> THEN mut ELSE base))     \* now and then a second fault
           /\ UNCHANGED <<ep, base>>
Spec == Init /\ [][Next]_<<ep, base, mut, n>>
Valid == n = 1 => LET d == Decode(ep, base) IN d.ok /\ d.p = Len(base) + 1 /\ CutRejected(ep, base)
Laws == n > 0 => TailIgnored(ep, mut)
Emit == n > 0 => LET d == Decode(ep, mut) IN CSVWrite("%1$s", <<ToJson([ep |-> ep, b |-> mut, fault |-> n > 1, ok |-> d.ok, used |-> IF d.ok THEN d.p - 1 ELSE 0, ev |-> IF d.ok THEN d.v ELSE Ev(<<>>, <<>>, <<>>, <<>>, <<>>)])>>, IOEnv.OUT)
==============================================================================
